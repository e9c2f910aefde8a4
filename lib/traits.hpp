// traits.hpp - what the documentation says about kinds of C++ types, for the harnesses' own use
#pragma once

#include <iterator>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

namespace traits
{
template <typename T>
using range_value = typename std::iterator_traits<std::decay_t<decltype(std::declval<T&>().begin())>>::value_type;

template <typename T, typename = void>
constexpr bool is_container = false;
template <typename T>
constexpr bool is_container<T, std::void_t<typename T::value_type, range_value<T>>> = std::is_same_v<typename T::value_type, range_value<T>> && !std::is_same_v<T, std::string>;

template <typename T, typename = void>
constexpr bool is_map = false;
template <typename T>
constexpr bool is_map<T, std::void_t<typename T::key_type, typename T::mapped_type>> = is_container<T>;

template <typename T>
constexpr bool is_fixed_array = false;
template <template <typename, size_t> typename A, typename E, size_t N>
constexpr bool is_fixed_array<A<E, N>> = true;

template <typename T>
constexpr bool is_collection = is_container<T> && !is_map<T> && !is_fixed_array<T>;

template <typename T>
constexpr bool is_optional = false;
template <typename E>
constexpr bool is_optional<std::optional<E>> = true;

template <typename T>
constexpr bool is_tuple_like = false;
template <typename... A>
constexpr bool is_tuple_like<std::tuple<A...>> = true;
template <typename A, typename B>
constexpr bool is_tuple_like<std::pair<A, B>> = true;

// conversions of the user's own
template <typename T, typename = void>
constexpr bool loads_by_member = false;
template <typename T>
constexpr bool loads_by_member<T, std::void_t<decltype(std::declval<T&>().from_json(std::declval<json::value>()))>> = true;

template <typename T, typename = void>
constexpr bool loads_by_spec = false;
template <typename T>
constexpr bool loads_by_spec<T, std::void_t<decltype(std::declval<json::ext::jsonization<T>&>().from_json(std::declval<json::value>(), std::declval<T&>()))>> = true;

template <typename T, typename = void>
constexpr bool saves_by_member = false;
template <typename T>
constexpr bool saves_by_member<T, std::void_t<decltype(std::declval<const T&>().to_json())>> = true;

template <typename T, typename = void>
constexpr bool saves_by_spec = false;
template <typename T>
constexpr bool saves_by_spec<T, std::void_t<decltype(std::declval<json::ext::jsonization<T>&>().to_json(std::declval<const T&>()))>> = true;

template <typename T>
constexpr bool own_loading = loads_by_member<T> || loads_by_spec<T>;
template <typename T>
constexpr bool own_saving = saves_by_member<T> || saves_by_spec<T>;
} // namespace traits
