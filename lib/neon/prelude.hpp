// what the library sees when it is compiled for 64-bit ARM with MEOJSON_ENABLE_NEON
#pragma once
#include <bits/stdc++.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#undef __SSE2__
#undef __SSE4_1__
#undef __AVX2__
#define __ARM_NEON 1
#define __aarch64__ 1
#define MEOJSON_ENABLE_NEON 1
