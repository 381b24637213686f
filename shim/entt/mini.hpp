// A small stand-in for the parts of EnTT 3.15 that edyn uses. Written for these checks: it follows
// the documented behaviour (storage by swap-and-pop, iteration from the newest element, signals
// after construction/update and before destruction, recycled identifiers with a new version), and
// aborts where EnTT would assert.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#define MINI_ASSERT(c, m) do { if (!(c)) { std::fprintf(stderr, "EnTT misuse: %s (%s:%d)\n", m, __FILE__, __LINE__); std::abort(); } } while (0)
#ifndef ENTT_ASSERT
#define ENTT_ASSERT(c, m) MINI_ASSERT(c, m)
#endif

namespace entt {

using id_type = std::uint32_t;

// ------------------------------------------------------------------ hashed strings
struct hashed_string {
    id_type hash{};
    constexpr hashed_string() = default;
    constexpr hashed_string(const char *s, std::size_t n) : hash(2166136261u) { for (std::size_t i = 0; i < n; ++i) hash = (hash ^ static_cast<unsigned char>(s[i])) * 16777619u; }
    constexpr id_type value() const { return hash; }
    constexpr operator id_type() const { return hash; }
    static constexpr id_type value(const char *s) { std::size_t n = 0; while (s[n]) ++n; return hashed_string(s, n).hash; }
};
inline namespace literals {
constexpr hashed_string operator"" _hs(const char *s, std::size_t n) { return {s, n}; }
}
struct identity { using is_transparent = void; template<typename T> constexpr T &&operator()(T &&t) const noexcept { return std::forward<T>(t); } };
template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
using dense_map = std::unordered_map<K, V, std::conditional_t<std::is_same_v<H, identity>, std::hash<K>, H>, E>;

// ------------------------------------------------------------------ type information
template<typename T> constexpr std::string_view mini_name() { return __PRETTY_FUNCTION__; }
struct type_info {
    id_type seq, identifier; std::string_view alias;
    id_type index() const { return seq; }
    id_type hash() const { return identifier; }
    std::string_view name() const { return alias; }
    friend bool operator==(const type_info &a, const type_info &b) { return a.identifier == b.identifier; }
    friend bool operator!=(const type_info &a, const type_info &b) { return !(a == b); }
};
inline id_type mini_next_index() { static id_type n = 0; return n++; }
template<typename T, typename = void> struct type_hash {
    static constexpr id_type value() { constexpr auto n = mini_name<T>(); return hashed_string(n.data(), n.size()).hash; }
    constexpr operator id_type() const { return value(); }
};
template<typename T, typename = void> struct type_index { static id_type value() { static const id_type v = mini_next_index(); return v; } operator id_type() const { return value(); } };
template<typename T> const type_info &type_id() {
    using U = std::remove_cv_t<std::remove_reference_t<T>>;
    static const type_info i{type_index<U>::value(), type_hash<U>::value(), mini_name<U>()};
    return i;
}
template<typename T> const type_info &type_id(T &&) { return type_id<std::remove_cv_t<std::remove_reference_t<T>>>(); }

// ------------------------------------------------------------------ identifiers
enum class entity : id_type {};
template<typename> struct entt_traits;
template<> struct entt_traits<entity> {
    using value_type = entity; using entity_type = std::uint32_t; using version_type = std::uint16_t;
    static constexpr entity_type entity_mask = 0xFFFFF, version_mask = 0xFFF;
    static constexpr std::size_t entity_shift = 20, page_size = 4096;
    static constexpr entity_type to_integral(entity e) { return static_cast<entity_type>(e); }
    static constexpr entity_type to_entity(entity e) { return to_integral(e) & entity_mask; }
    static constexpr version_type to_version(entity e) { return static_cast<version_type>(to_integral(e) >> entity_shift); }
    static constexpr entity construct(entity_type i, version_type v) { return entity{(i & entity_mask) | (static_cast<entity_type>(v) << entity_shift)}; }
    static constexpr entity next(entity e) { auto v = static_cast<version_type>((to_version(e) + 1) & version_mask); if (v == version_mask) v = 0; return construct(to_entity(e), v); }
};
constexpr auto to_integral(entity e) { return entt_traits<entity>::to_integral(e); }
constexpr auto to_entity(entity e) { return entt_traits<entity>::to_entity(e); }
constexpr auto to_version(entity e) { return entt_traits<entity>::to_version(e); }
struct null_t {
    constexpr operator entity() const { return entity{0xFFFFFFFFu}; }
    constexpr bool operator==(null_t) const { return true; }
    constexpr bool operator!=(null_t) const { return false; }
    constexpr bool operator==(entity e) const { return to_entity(e) == 0xFFFFF; }
    constexpr bool operator!=(entity e) const { return !(*this == e); }
};
constexpr bool operator==(entity e, null_t n) { return n == e; }
constexpr bool operator!=(entity e, null_t n) { return n != e; }
inline constexpr null_t null{};
struct tombstone_t {
    constexpr operator entity() const { return entity{0xFFFFFFFFu}; }
    constexpr bool operator==(entity e) const { return to_version(e) == 0xFFF; }
    constexpr bool operator!=(entity e) const { return !(*this == e); }
};
constexpr bool operator==(entity e, tombstone_t n) { return n == e; }
constexpr bool operator!=(entity e, tombstone_t n) { return n != e; }
inline constexpr tombstone_t tombstone{};

// ------------------------------------------------------------------ delegates
template<auto Candidate> struct connect_arg_t { explicit connect_arg_t() = default; };
template<auto Candidate> inline constexpr connect_arg_t<Candidate> connect_arg{};
template<typename> class delegate;
namespace mini {
template<typename Tuple, typename Fn, typename... Pre> struct best_arity;
template<typename... A, typename Fn, typename... Pre> struct best_arity<std::tuple<A...>, Fn, Pre...> {
    template<std::size_t... I> static constexpr bool can(std::index_sequence<I...>) { return std::is_invocable_v<Fn, Pre..., std::tuple_element_t<I, std::tuple<A...>>...>; }
    template<std::size_t N> static constexpr std::size_t find() {
        if constexpr (can(std::make_index_sequence<N>{})) return N;
        else { static_assert(N > 0, "the function cannot be connected"); return find<N - 1>(); }
    }
    static constexpr std::size_t value = find<sizeof...(A)>();
};
template<typename Fn, typename Tuple, std::size_t... I, typename... Pre>
decltype(auto) call(Fn fn, std::index_sequence<I...>, Tuple &&t, Pre &&...pre) { return std::invoke(fn, std::forward<Pre>(pre)..., std::get<I>(std::forward<Tuple>(t))...); }
template<typename> struct fsig;
template<typename R, typename T, typename... A> struct fsig<R (*)(T, A...)> { using type = R(A...); };
template<typename R, typename C, typename... A> struct fsig<R (C::*)(A...)> { using type = R(A...); };
template<typename R, typename C, typename... A> struct fsig<R (C::*)(A...) const> { using type = R(A...); };
template<typename R, typename C, typename... A> struct fsig<R (C::*)(A...) noexcept> { using type = R(A...); };
template<typename R, typename C, typename... A> struct fsig<R (C::*)(A...) const noexcept> { using type = R(A...); };
template<typename> struct ffree;
template<typename R, typename... A> struct ffree<R (*)(A...)> { using type = R(A...); };
}
template<typename R, typename... Args> class delegate<R(Args...)> {
public:
    using function_type = R(const void *, Args...);
    using type = R(Args...);
    using result_type = R;
    delegate() = default;
    template<auto C> delegate(connect_arg_t<C>) { connect<C>(); }
    template<auto C, typename T> delegate(connect_arg_t<C>, T &&v) { connect<C>(std::forward<T>(v)); }
    delegate(function_type *f, const void *payload = nullptr) { connect(f, payload); }
    template<auto C> void connect() {
        instance = nullptr;
        fn = [](const void *, Args... args) -> R {
            using T = std::tuple<Args...>;
            constexpr auto n = mini::best_arity<T, decltype(C)>::value;
            return R(mini::call(C, std::make_index_sequence<n>{}, std::forward_as_tuple(std::forward<Args>(args)...)));
        };
    }
    template<auto C, typename T> void connect(T &v) {
        instance = &v;
        fn = [](const void *p, Args... args) -> R {
            T *obj = static_cast<T *>(const_cast<std::remove_const_t<T> *>(static_cast<const std::remove_const_t<T> *>(p)));
            using Tup = std::tuple<Args...>;
            constexpr auto n = mini::best_arity<Tup, decltype(C), T &>::value;
            return R(mini::call(C, std::make_index_sequence<n>{}, std::forward_as_tuple(std::forward<Args>(args)...), *obj));
        };
    }
    template<auto C, typename T> void connect(T *v) {
        instance = v;
        fn = [](const void *p, Args... args) -> R {
            T *obj = static_cast<T *>(const_cast<std::remove_const_t<T> *>(static_cast<const std::remove_const_t<T> *>(p)));
            using Tup = std::tuple<Args...>;
            constexpr auto n = mini::best_arity<Tup, decltype(C), T *>::value;
            return R(mini::call(C, std::make_index_sequence<n>{}, std::forward_as_tuple(std::forward<Args>(args)...), obj));
        };
    }
    void connect(function_type *f, const void *payload = nullptr) { instance = payload; fn = f; }
    void reset() { instance = nullptr; fn = nullptr; }
    const void *data() const { return instance; }
    function_type *target() const { return fn; }
    R operator()(Args... args) const { MINI_ASSERT(fn, "empty delegate"); return fn(instance, std::forward<Args>(args)...); }
    explicit operator bool() const { return fn != nullptr; }
    bool operator==(const delegate &o) const { return fn == o.fn && instance == o.instance; }
    bool operator!=(const delegate &o) const { return !(*this == o); }
private:
    const void *instance = nullptr;
    function_type *fn = nullptr;
};
template<auto C> delegate(connect_arg_t<C>) -> delegate<typename mini::ffree<decltype(C)>::type>;
template<auto C, typename T> delegate(connect_arg_t<C>, T &&) -> delegate<typename mini::fsig<decltype(C)>::type>;

// ------------------------------------------------------------------ signals
template<typename> class sigh;
template<typename> class sink;
template<typename R, typename... Args> class sigh<R(Args...)> {
    friend class sink<sigh<R(Args...)>>;
public:
    using sink_type = sink<sigh<R(Args...)>>;
    std::size_t size() const { return calls.size(); }
    bool empty() const { return calls.empty(); }
    void publish(Args... args) const { for (auto pos = calls.size(); pos; --pos) calls[pos - 1](args...); }
private:
    std::vector<delegate<R(Args...)>> calls;
};
class connection {
public:
    connection() = default;
    explicit connection(std::function<void()> r) : rel(std::move(r)) {}
    explicit operator bool() const { return static_cast<bool>(rel); }
    void release() { if (rel) { auto r = std::move(rel); rel = nullptr; r(); } }
private:
    std::function<void()> rel;
};
struct scoped_connection {
    scoped_connection() = default;
    scoped_connection(const connection &c) : conn(c) {}
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection(scoped_connection &&o) noexcept : conn(std::exchange(o.conn, {})) {}
    ~scoped_connection() { conn.release(); }
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&o) noexcept { conn = std::exchange(o.conn, {}); return *this; }
    scoped_connection &operator=(connection o) { conn = std::move(o); return *this; }
    explicit operator bool() const { return static_cast<bool>(conn); }
    void release() { conn.release(); }
private:
    connection conn;
};
template<typename R, typename... Args> class sink<sigh<R(Args...)>> {
    using signal_type = sigh<R(Args...)>;
    using delegate_type = delegate<R(Args...)>;
public:
    sink() = default;
    sink(signal_type &s) : signal(&s) {}
    bool empty() const { return signal->calls.empty(); }
    template<auto C, typename... T> connection connect(T &&...v) {
        disconnect<C>(v...);
        delegate_type d; d.template connect<C>(v...);
        signal->calls.push_back(d);
        return connection{[s = signal, d] { s->calls.erase(std::remove(s->calls.begin(), s->calls.end(), d), s->calls.end()); }};
    }
    template<auto C, typename... T> void disconnect(T &&...v) {
        delegate_type d; d.template connect<C>(v...);
        signal->calls.erase(std::remove(signal->calls.begin(), signal->calls.end(), d), signal->calls.end());
    }
    void disconnect(const void *p) { signal->calls.erase(std::remove_if(signal->calls.begin(), signal->calls.end(), [&](auto &d) { return d.data() == p; }), signal->calls.end()); }
    template<typename T, typename = std::enable_if_t<!std::is_pointer_v<T>>> void disconnect(T &v) { disconnect(static_cast<const void *>(&v)); }
    void disconnect() { signal->calls.clear(); }
    explicit operator bool() const { return signal != nullptr; }
private:
    signal_type *signal = nullptr;
};
template<typename R, typename... A> sink(sigh<R(A...)> &) -> sink<sigh<R(A...)>>;

// ------------------------------------------------------------------ any
class any {
    struct base { virtual ~base() = default; virtual void *get() = 0; virtual std::unique_ptr<base> copy() const = 0; virtual const type_info &type() const = 0; };
    template<typename T> struct holder : base {
        T v;
        template<typename... A> explicit holder(std::in_place_t, A &&...a) : v(make(std::forward<A>(a)...)) {}
        template<typename... A> static T make(A &&...a) { if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...}; else return T(std::forward<A>(a)...); }
        void *get() override { return &v; }
        std::unique_ptr<base> copy() const override { if constexpr (std::is_copy_constructible_v<T>) return std::make_unique<holder>(std::in_place, v); else return nullptr; }
        const type_info &type() const override { return type_id<T>(); }
    };
public:
    any() = default;
    template<typename T, typename... A> explicit any(std::in_place_type_t<T>, A &&...a) : h(new holder<std::decay_t<T>>(std::in_place, std::forward<A>(a)...)) {}
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any>>> any(T &&v) : h(new holder<std::decay_t<T>>(std::in_place, std::forward<T>(v))) {}
    any(const any &o) : h(o.h ? o.h->copy() : nullptr) {}
    any(any &&) noexcept = default;
    any &operator=(const any &o) { h = o.h ? o.h->copy() : nullptr; return *this; }
    any &operator=(any &&) noexcept = default;
    const type_info &type() const { return h ? h->type() : type_id<void>(); }
    void *data() { return h ? h->get() : nullptr; }
    const void *data() const { return h ? h->get() : nullptr; }
    explicit operator bool() const { return static_cast<bool>(h); }
    void reset() { h.reset(); }
private:
    std::unique_ptr<base> h;
};
template<typename T> T *any_cast(any *a) { return a->type() == type_id<T>() ? static_cast<T *>(a->data()) : nullptr; }
template<typename T> const T *any_cast(const any *a) { return a->type() == type_id<T>() ? static_cast<const T *>(a->data()) : nullptr; }
template<typename T> std::remove_const_t<T> any_cast(any &a) { auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a); MINI_ASSERT(p, "any_cast"); return static_cast<T>(*p); }

// ------------------------------------------------------------------ sparse sets
enum class deletion_policy : std::uint8_t { swap_and_pop = 0, in_place = 1 };
class sparse_set {
public:
    using entity_type = entity; using value_type = entity; using size_type = std::size_t;
    class iterator {
    public:
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
        iterator() = default;
        iterator(const std::vector<entity> *v, difference_type o) : v(v), off(o) {}
        iterator &operator++() { --off; return *this; }
        iterator operator++(int) { auto t = *this; --off; return t; }
        iterator &operator--() { ++off; return *this; }
        iterator operator--(int) { auto t = *this; ++off; return t; }
        iterator &operator+=(difference_type n) { off -= n; return *this; }
        iterator operator+(difference_type n) const { return {v, off - n}; }
        iterator &operator-=(difference_type n) { off += n; return *this; }
        iterator operator-(difference_type n) const { return {v, off + n}; }
        difference_type operator-(const iterator &o) const { return o.off - off; }
        reference operator[](difference_type n) const { return (*v)[static_cast<std::size_t>(off - 1 - n)]; }
        reference operator*() const { return (*v)[static_cast<std::size_t>(off - 1)]; }
        pointer operator->() const { return &**this; }
        bool operator==(const iterator &o) const { return off == o.off; }
        bool operator!=(const iterator &o) const { return off != o.off; }
        bool operator<(const iterator &o) const { return off > o.off; }
        bool operator>(const iterator &o) const { return off < o.off; }
        bool operator<=(const iterator &o) const { return off >= o.off; }
        bool operator>=(const iterator &o) const { return off <= o.off; }
        difference_type index() const { return off - 1; }
    private:
        const std::vector<entity> *v = nullptr; difference_type off = 0;
    };
    using const_iterator = iterator;
    using reverse_iterator = std::vector<entity>::const_iterator;
    sparse_set() = default;
    explicit sparse_set(deletion_policy p) : mode(p) {}
    sparse_set(sparse_set &&o) noexcept : packed(std::move(o.packed)), sparse(std::move(o.sparse)), holes(std::move(o.holes)), mode(o.mode) { o.packed.clear(); o.sparse.clear(); o.holes.clear(); }
    sparse_set &operator=(sparse_set &&o) noexcept { packed = std::move(o.packed); sparse = std::move(o.sparse); holes = std::move(o.holes); mode = o.mode; o.packed.clear(); o.sparse.clear(); o.holes.clear(); return *this; }
    sparse_set(const sparse_set &) = delete;
    sparse_set &operator=(const sparse_set &) = delete;
    virtual ~sparse_set() = default;
    deletion_policy policy() const { return mode; }
    size_type size() const { return packed.size(); }
    bool empty() const { return packed.empty(); }
    size_type extent() const { return sparse.size(); }
    const entity *data() const { return packed.data(); }
    iterator begin() const { return {&packed, static_cast<std::ptrdiff_t>(packed.size())}; }
    iterator end() const { return {&packed, 0}; }
    iterator cbegin() const { return begin(); }
    iterator cend() const { return end(); }
    reverse_iterator rbegin() const { return packed.begin(); }
    reverse_iterator rend() const { return packed.end(); }
    bool contains(entity e) const { auto p = slot(e); return p && *p != npos && packed[*p] == e; }
    iterator find(entity e) const { return contains(e) ? iterator{&packed, static_cast<std::ptrdiff_t>(index(e)) + 1} : end(); }
    size_type index(entity e) const { MINI_ASSERT(contains(e), "entity not in set"); return *slot(e); }
    entity operator[](size_type p) const { return packed[p]; }
    entity at(size_type p) const { return p < packed.size() ? packed[p] : entity{entt::null}; }
    void reserve(size_type n) { packed.reserve(n); }
    size_type capacity() const { return packed.capacity(); }
    void shrink_to_fit() { packed.shrink_to_fit(); }
    iterator push(entity e) { try_emplace(e); return find(e); }
    template<typename It> iterator push(It first, It last) { for (; first != last; ++first) try_emplace(*first); return begin(); }
    void erase(entity e) { MINI_ASSERT(contains(e), "erase of an entity not in the set"); pop(e); }
    template<typename It> void erase(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) erase(e); }
    bool remove(entity e) { if (!contains(e)) return false; pop(e); return true; }
    template<typename It> size_type remove(It first, It last) { std::vector<entity> v(first, last); size_type n = 0; for (auto e : v) n += remove(e); return n; }
    void clear() { pop_all(); }
    template<typename Cmp> void sort(Cmp c) {
        MINI_ASSERT(raw_sortable(), "only plain sets can be sorted here");
        std::sort(packed.rbegin(), packed.rend(), std::move(c));
        for (size_type i = 0; i < packed.size(); ++i) at_slot(packed[i]) = i;
    }
    virtual void bind(void *) {}
protected:
    virtual bool raw_sortable() const { return true; }
    virtual void swap_or_move(size_type, size_type) {}         // element `from` moves to `to`
    virtual void drop(size_type) {}                            // element at the position goes (in place or last)
    virtual void try_emplace(entity e) { insert(e); }
    virtual void pop(entity e) { take(e); }
    virtual void pop_all() { while (!packed.empty()) { auto e = packed.back(); if (e == tombstone) { packed.pop_back(); shrink_one(); } else take(e); } holes.clear(); }
    virtual void shrink_one() {}
    size_type insert(entity e) {
        MINI_ASSERT(e != entt::null, "null entity");
        MINI_ASSERT(!contains(e) && (!slot(e) || *slot(e) == npos), "entity (or another version of it) already in the set");
        size_type pos;
        if (mode == deletion_policy::in_place && !holes.empty()) { pos = holes.back(); holes.pop_back(); packed[pos] = e; }
        else { pos = packed.size(); packed.push_back(e); }
        at_slot(e) = pos;
        return pos;
    }
    void take(entity e) {
        auto pos = index(e);
        if (mode == deletion_policy::in_place) { drop(pos); packed[pos] = tombstone; holes.push_back(pos); at_slot(e) = npos; return; }
        auto last = packed.size() - 1;
        auto le = packed[last];
        at_slot(le) = pos; at_slot(e) = npos;
        packed[pos] = le;
        packed.pop_back();
        if (pos != last) swap_or_move(last, pos);
        drop(last);
    }
    std::vector<entity> packed;
private:
    static constexpr size_type npos = static_cast<size_type>(-1);
    const size_type *slot(entity e) const { auto i = to_entity(e); return i < sparse.size() ? &sparse[i] : nullptr; }
    size_type &at_slot(entity e) { auto i = to_entity(e); if (i >= sparse.size()) sparse.resize(i + 1, npos); return sparse[i]; }
    std::vector<size_type> sparse;
    std::vector<size_type> holes;
    deletion_policy mode = deletion_policy::swap_and_pop;
};

template<typename T, typename = void> struct mini_in_place : std::bool_constant<!(std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)> {};
template<typename T> struct mini_in_place<T, std::enable_if_t<T::in_place_delete>> : std::true_type {};
template<typename T> struct component_traits { using type = T; static constexpr bool in_place_delete = mini_in_place<T>::value; static constexpr std::size_t page_size = std::is_empty_v<T> ? 0 : 1024; };

template<typename It> struct mini_range { It b, e; It begin() const { return b; } It end() const { return e; } It cbegin() const { return b; } It cend() const { return e; } };

// ------------------------------------------------------------------ storage
template<typename T, bool Empty = std::is_empty_v<T>> class basic_plain_storage : public sparse_set {
    static constexpr bool in_place = component_traits<T>::in_place_delete;
    std::deque<std::optional<T>> elems;
protected:
    bool raw_sortable() const override { return false; }
    void swap_or_move(size_type from, size_type to) override { if constexpr (!in_place) { *elems[to] = std::move(*elems[from]); } }
    void drop(size_type p) override { if constexpr (in_place) elems[p].reset(); else { (void)p; elems.pop_back(); } }
    void shrink_one() override { elems.pop_back(); }
    void try_emplace(entity e) override { if constexpr (std::is_default_constructible_v<T>) make(e); else MINI_ASSERT(false, "push of a type without default"); }
    template<typename... A> T &make(entity e, A &&...a) {
        auto pos = insert(e);
        if (pos == elems.size()) elems.emplace_back();
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) {
            if constexpr (std::is_move_constructible_v<T>) elems[pos].emplace(T{std::forward<A>(a)...});
            else elems[pos].emplace(std::forward<A>(a)...);
        } else elems[pos].emplace(std::forward<A>(a)...);
        return *elems[pos];
    }
public:
    using value_type = T; using element_type = T;
    basic_plain_storage() : sparse_set(in_place ? deletion_policy::in_place : deletion_policy::swap_and_pop) {}
    basic_plain_storage(basic_plain_storage &&o) noexcept : sparse_set(std::move(o)), elems(std::move(o.elems)) { o.elems.clear(); }
    basic_plain_storage &operator=(basic_plain_storage &&o) noexcept { sparse_set::operator=(std::move(o)); elems = std::move(o.elems); o.elems.clear(); return *this; }
    T &get(entity e) { return *elems[index(e)]; }
    const T &get(entity e) const { return *elems[index(e)]; }
    std::tuple<T &> get_as_tuple(entity e) { return std::forward_as_tuple(get(e)); }
    std::tuple<const T &> get_as_tuple(entity e) const { return std::forward_as_tuple(get(e)); }
    template<typename... A> T &emplace(entity e, A &&...a) { return make(e, std::forward<A>(a)...); }
    template<typename... F> T &patch(entity e, F &&...f) { auto &x = get(e); (std::forward<F>(f)(x), ...); return x; }
    template<typename It> void insert_all(It first, It last, const T &v) { for (; first != last; ++first) emplace(*first, v); }
    void clear() { pop_all(); }
    template<bool C> class elem_iterator {
        using S = std::conditional_t<C, const basic_plain_storage, basic_plain_storage>;
        S *s = nullptr; std::ptrdiff_t off = 0;
    public:
        using value_type = T; using reference = std::conditional_t<C, const T &, T &>; using pointer = std::conditional_t<C, const T *, T *>; using difference_type = std::ptrdiff_t; using iterator_category = std::bidirectional_iterator_tag;
        elem_iterator() = default;
        elem_iterator(S *s, std::ptrdiff_t o) : s(s), off(o) {}
        elem_iterator &operator++() { --off; return *this; }
        elem_iterator operator++(int) { auto t = *this; --off; return t; }
        elem_iterator &operator--() { ++off; return *this; }
        elem_iterator operator+(difference_type n) const { return {s, off - n}; }
        difference_type operator-(const elem_iterator &o) const { return o.off - off; }
        reference operator*() const { return s->raw_at(static_cast<std::size_t>(off - 1)); }
        pointer operator->() const { return &**this; }
        bool operator==(const elem_iterator &o) const { return off == o.off; }
        bool operator!=(const elem_iterator &o) const { return off != o.off; }
    };
    T &raw_at(size_type p) { return *elems[p]; }
    const T &raw_at(size_type p) const { return *elems[p]; }
    using iterator = elem_iterator<false>; using const_iterator = elem_iterator<true>;
    iterator begin() { return {this, static_cast<std::ptrdiff_t>(size())}; }
    iterator end() { return {this, 0}; }
    const_iterator begin() const { return {this, static_cast<std::ptrdiff_t>(size())}; }
    const_iterator end() const { return {this, 0}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    template<bool C> struct pair_iterator {
        using S = std::conditional_t<C, const basic_plain_storage, basic_plain_storage>;
        S *s; std::ptrdiff_t off;
        using value_type = std::tuple<entity, std::conditional_t<C, const T &, T &>>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        void skip() { while (off > 0 && s->data()[off - 1] == tombstone) --off; }
        pair_iterator &operator++() { --off; skip(); return *this; }
        value_type operator*() const { auto p = static_cast<std::size_t>(off - 1); return {s->data()[p], s->raw_at(p)}; }
        bool operator==(const pair_iterator &o) const { return off == o.off; }
        bool operator!=(const pair_iterator &o) const { return off != o.off; }
    };
    auto each() { pair_iterator<false> b{this, static_cast<std::ptrdiff_t>(size())}, e{this, 0}; b.skip(); return mini_range<pair_iterator<false>>{b, e}; }
    auto each() const { pair_iterator<true> b{this, static_cast<std::ptrdiff_t>(size())}, e{this, 0}; b.skip(); return mini_range<pair_iterator<true>>{b, e}; }
};
template<typename T> class basic_plain_storage<T, true> : public sparse_set {
protected:
    bool raw_sortable() const override { return false; }
public:
    using value_type = T; using element_type = T;
    basic_plain_storage() : sparse_set(component_traits<T>::in_place_delete ? deletion_policy::in_place : deletion_policy::swap_and_pop) {}
    basic_plain_storage(basic_plain_storage &&) noexcept = default;
    basic_plain_storage &operator=(basic_plain_storage &&) noexcept = default;
    void get(entity e) const { MINI_ASSERT(contains(e), "get"); }
    std::tuple<> get_as_tuple(entity e) const { MINI_ASSERT(contains(e), "get"); return {}; }
    template<typename... A> void emplace(entity e, A &&...) { insert(e); }
    template<typename... F> void patch(entity e, F &&...f) { MINI_ASSERT(contains(e), "patch"); (std::forward<F>(f)(), ...); }
    void clear() { pop_all(); }
    struct pair_iterator {
        const basic_plain_storage *s; std::ptrdiff_t off;
        void skip() { while (off > 0 && s->data()[off - 1] == tombstone) --off; }
        pair_iterator &operator++() { --off; skip(); return *this; }
        std::tuple<entity> operator*() const { return {s->data()[off - 1]}; }
        bool operator!=(const pair_iterator &o) const { return off != o.off; }
    };
    auto each() const { pair_iterator b{this, static_cast<std::ptrdiff_t>(size())}, e{this, 0}; b.skip(); return mini_range<pair_iterator>{b, e}; }
};

class registry;
template<typename T> class mini_signal_storage : public basic_plain_storage<T> {
    using base = basic_plain_storage<T>;
    registry *owner = nullptr;
    sigh<void(registry &, entity)> construction, destruction, update;
    // A storage outside a registry has no listeners.
    template<typename S> void notify(S &s, entity e) { if (owner) s.publish(*owner, e); }
protected:
    void pop(entity e) override { notify(destruction, e); base::pop(e); }
    void pop_all() override {
        if (!destruction.empty()) { for (std::size_t i = 0; i < this->size(); ++i) if (auto e = this->data()[i]; e != tombstone) notify(destruction, e); }
        base::pop_all();
    }
    void try_emplace(entity e) override { base::try_emplace(e); notify(construction, e); }
public:
    mini_signal_storage() = default;
    void bind(void *r) override { owner = static_cast<registry *>(r); }
    auto on_construct() { return sink{construction}; }
    auto on_update() { return sink{update}; }
    auto on_destroy() { return sink{destruction}; }
    template<typename... A> decltype(auto) emplace(entity e, A &&...a) { base::emplace(e, std::forward<A>(a)...); notify(construction, e); return this->get(e); }
    template<typename... F> decltype(auto) patch(entity e, F &&...f) { base::patch(e, std::forward<F>(f)...); notify(update, e); return this->get(e); }
};
// entt::storage: the type of the elements of a registry and also usable on its own.
template<typename T> class storage : public mini_signal_storage<T> {
    using base = mini_signal_storage<T>;
public:
    storage() = default;
    storage(storage &&) noexcept = default;
    storage &operator=(storage &&) noexcept = default;
};

template<typename... T> struct get_t { explicit constexpr get_t() = default; };
template<typename... T> inline constexpr get_t<T...> get{};
template<typename... T> struct exclude_t { explicit constexpr exclude_t() = default; };
template<typename... T> inline constexpr exclude_t<T...> exclude{};
template<typename... T> struct type_list {};

// ------------------------------------------------------------------ views
template<typename, typename> class basic_view;
template<typename... G, typename... X> class basic_view<get_t<G...>, exclude_t<X...>> {
    std::tuple<G *...> pools{};
    std::tuple<X *...> filter{};
    template<typename S> using elem_t = std::conditional_t<std::is_const_v<S>, const typename std::remove_const_t<S>::value_type, typename S::value_type>;
    template<typename T, typename S> static constexpr bool is_for = std::is_same_v<std::remove_const_t<T>, typename std::remove_const_t<S>::value_type>;
    template<typename T, std::size_t I = 0> auto *pool_for() const {
        if constexpr (is_for<T, std::tuple_element_t<I, std::tuple<G...>>>) return std::get<I>(pools);
        else return pool_for<T, I + 1>();
    }
    const sparse_set *lead() const {
        const sparse_set *best = nullptr;
        bool missing = false;
        std::apply([&](auto *...p) { ((p ? ((!best || static_cast<const sparse_set *>(p)->size() < best->size()) ? (void)(best = p) : (void)0) : (void)(missing = true)), ...); }, pools);
        return missing ? nullptr : best;
    }
    bool valid(entity e) const {
        return e != tombstone && std::apply([e](auto *...p) { return ((p && static_cast<const sparse_set *>(p)->contains(e)) && ...); }, pools)
            && std::apply([e](auto *...p) { return !((p && static_cast<const sparse_set *>(p)->contains(e)) || ... || false); }, filter);
    }
    template<typename S> static auto tuple_of(S *s, entity e) { return s->get_as_tuple(e); }
public:
    using entity_type = entity; using size_type = std::size_t;
    using common_type = sparse_set;
    basic_view() = default;
    explicit basic_view(std::tuple<G *...> p, std::tuple<X *...> f = {}) : pools(p), filter(f) {}
    class iterator {
    public:
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        iterator(const basic_view *v, const sparse_set *s, std::ptrdiff_t o) : view(*v), set(s), off(o) { skip(); }
        iterator &operator++() { --off; skip(); return *this; }
        iterator operator++(int) { auto t = *this; ++*this; return t; }
        reference operator*() const { return set->data()[off - 1]; }
        pointer operator->() const { return &**this; }
        bool operator==(const iterator &o) const { return off == o.off; }
        bool operator!=(const iterator &o) const { return off != o.off; }
    private:
        void skip() { while (off > 0 && !view.valid(set->data()[off - 1])) --off; }
        basic_view view; const sparse_set *set = nullptr; std::ptrdiff_t off = 0;
    };
    iterator begin() const { auto *l = lead(); return {this, l, l ? static_cast<std::ptrdiff_t>(l->size()) : 0}; }
    iterator end() const { return {this, lead(), 0}; }
    size_type size_hint() const { auto *l = lead(); return l ? l->size() : 0; }
    template<typename S = basic_view, typename = std::enable_if_t<sizeof...(G) == 1 && sizeof...(X) == 0, S>> size_type size() const { return size_hint(); }
    template<typename S = basic_view, typename = std::enable_if_t<sizeof...(G) == 1 && sizeof...(X) == 0, S>> bool empty() const { return size_hint() == 0; }
    template<typename S = basic_view, typename = std::enable_if_t<sizeof...(G) == 1 && sizeof...(X) == 0, S>> entity operator[](size_type p) const { return begin_at(p); }
    entity front() const { auto it = begin(); return it != end() ? *it : entity{null}; }
    bool contains(entity e) const { return valid(e); }
    iterator find(entity e) const { if (!valid(e)) return end(); auto *l = lead(); return {this, l, static_cast<std::ptrdiff_t>(l->index(e)) + 1}; }
    explicit operator bool() const { return lead() != nullptr; }
    template<typename S = basic_view, typename = std::enable_if_t<sizeof...(G) == 1, S>> auto *operator->() const { return std::get<0>(pools); }
    template<typename T> auto *storage() const { return pool_for<T>(); }
    template<std::size_t I> auto *storage() const { return std::get<I>(pools); }
    template<typename... T> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(T) == 0) return std::apply([e](auto *...p) { return std::tuple_cat(tuple_of(p, e)...); }, pools);
        else if constexpr (sizeof...(T) == 1) { auto *p = pool_for<T...>(); MINI_ASSERT(p, "view over a pool that does not exist"); return p->get(e); }
        else return std::tuple_cat(tuple_of(pool_for<T>(), e)...);
    }
    template<typename S = basic_view, typename = std::enable_if_t<sizeof...(G) == 1, S>> decltype(auto) operator[](entity e) const { return std::get<0>(pools)->get(e); }
    template<typename F> void each(F f) const {
        for (auto e : *this) {
            auto t = get(e);
            if constexpr (is_applicable_e<F, decltype(t)>::value) std::apply([&](auto &&...c) { f(e, std::forward<decltype(c)>(c)...); }, t);
            else std::apply(f, t);
        }
    }
    class each_iterator {
        iterator it; const basic_view view;
    public:
        each_iterator(iterator i, const basic_view &v) : it(i), view(v) {}
        each_iterator &operator++() { ++it; return *this; }
        auto operator*() const { auto e = *it; return std::tuple_cat(std::tuple<entity>{e}, view.get(e)); }
        bool operator!=(const each_iterator &o) const { return it != o.it; }
        bool operator==(const each_iterator &o) const { return it == o.it; }
    };
    auto each() const { return mini_range<each_iterator>{each_iterator(begin(), *this), each_iterator(end(), *this)}; }
private:
    template<typename F, typename Tup> struct is_applicable_e;
    template<typename F, typename... C> struct is_applicable_e<F, std::tuple<C...>> : std::is_invocable<F, entity, C...> {};
    entity begin_at(size_type p) const { return lead()->data()[lead()->size() - 1 - p]; }
public:
    template<typename... G2, typename... X2> auto operator|(const basic_view<get_t<G2...>, exclude_t<X2...>> &o) const {
        return basic_view<get_t<G..., G2...>, exclude_t<X..., X2...>>{std::tuple_cat(pools, o.pools), std::tuple_cat(filter, o.filter)};
    }
    template<typename, typename> friend class basic_view;
};

// ------------------------------------------------------------------ registry
class registry {
    template<typename T> using store = entt::storage<std::remove_const_t<T>>;
public:
    using entity_type = entity; using size_type = std::size_t; using version_type = std::uint16_t;
    using allocator_type = std::allocator<entity>;
    using common_type = sparse_set;
    template<typename T> using storage_for_type = std::conditional_t<std::is_const_v<T>, const store<T>, store<T>>;
    class context {
    public:
        explicit context(const allocator_type & = {}) {}
        context(context &&) = default;
        context &operator=(context &&) = default;
        context(const context &o) { *this = o; }
        context &operator=(const context &o) { if (this != &o) { map.clear(); for (auto &[k, h] : o.map) if (h.copy) if (auto c = h.copy(h.get())) map[k] = {c, h.copy}; } return *this; }
        template<typename T, typename... A> T &emplace(A &&...a) { return emplace_as<T>(type_id<T>().hash(), std::forward<A>(a)...); }
        template<typename T, typename... A> T &emplace_as(id_type id, A &&...a) {
            auto it = map.find(id);
            if (it == map.end()) it = map.emplace(id, hold<T>(std::forward<A>(a)...)).first;
            return *static_cast<T *>(it->second.get());
        }
        template<typename T> std::decay_t<T> &insert_or_assign(T &&v) { using U = std::decay_t<T>; auto &h = map[type_id<U>().hash()]; h = hold<U>(std::forward<T>(v)); return *static_cast<U *>(h.get()); }
        template<typename T> bool erase(id_type id = type_id<T>().hash()) { return map.erase(id) != 0; }
        template<typename T> bool contains(id_type id = type_id<T>().hash()) const { return map.count(id) != 0; }
        template<typename T> T &get(id_type id = type_id<T>().hash()) { auto it = map.find(id); MINI_ASSERT(it != map.end(), "context variable missing"); return *static_cast<T *>(it->second.get()); }
        template<typename T> const T &get(id_type id = type_id<T>().hash()) const { auto it = map.find(id); MINI_ASSERT(it != map.end(), "context variable missing"); return *static_cast<const T *>(it->second.get()); }
        template<typename T> T *find(id_type id = type_id<T>().hash()) { auto it = map.find(id); return it == map.end() ? nullptr : static_cast<T *>(it->second.get()); }
        template<typename T> const T *find(id_type id = type_id<T>().hash()) const { auto it = map.find(id); return it == map.end() ? nullptr : static_cast<const T *>(it->second.get()); }
    private:
        struct held { std::shared_ptr<void> p; std::shared_ptr<void> (*copy)(const void *) = nullptr; void *get() const { return p.get(); } };
        template<typename T, typename... A> static held hold(A &&...a) {
            held h;
            if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) h.p = std::shared_ptr<T>(new T{std::forward<A>(a)...});
            else h.p = std::shared_ptr<T>(new T(std::forward<A>(a)...));
            if constexpr (std::is_copy_constructible_v<T>) h.copy = [](const void *o) -> std::shared_ptr<void> { return std::shared_ptr<T>(new T(*static_cast<const T *>(o))); };
            return h;
        }
        std::map<id_type, held> map;
    };
    registry() = default;
    // the context goes first: what it holds may still be connected to the pools
    ~registry() { vars = context{}; }
    registry(registry &&o) noexcept : vars(std::move(o.vars)), pools(std::move(o.pools)), slots(std::move(o.slots)), free_ids(std::move(o.free_ids)) { rebind(); }
    registry &operator=(registry &&o) noexcept { vars = std::move(o.vars); pools = std::move(o.pools); slots = std::move(o.slots); free_ids = std::move(o.free_ids); rebind(); return *this; }
    registry(const registry &) = delete;
    registry &operator=(const registry &) = delete;

    context &ctx() { return vars; }
    const context &ctx() const { return vars; }

    entity create() {
        if (!free_ids.empty()) { auto i = free_ids.back(); free_ids.pop_back(); slots[i].alive = true; return slots[i].id; }
        auto e = entt_traits<entity>::construct(static_cast<std::uint32_t>(slots.size()), 0);
        slots.push_back({e, true});
        return e;
    }
    entity create(entity hint) {
        if (hint == null) return create();
        auto i = to_entity(hint);
        while (slots.size() <= i) { auto n = static_cast<std::uint32_t>(slots.size()); slots.push_back({entt_traits<entity>::construct(n, 0), false}); free_ids.push_back(n); }
        if (slots[i].alive) return create();
        free_ids.erase(std::find(free_ids.begin(), free_ids.end(), i));
        slots[i] = {hint, true};
        return hint;
    }
    template<typename It> void create(It first, It last) { for (; first != last; ++first) *first = create(); }
    bool valid(entity e) const { auto i = to_entity(e); return i < slots.size() && slots[i].alive && slots[i].id == e; }
    version_type current(entity e) const { auto i = to_entity(e); return i < slots.size() ? to_version(slots[i].id) : to_version(tombstone); }
    version_type destroy(entity e) {
        MINI_ASSERT(valid(e), "destroy of an invalid entity");
        for (auto pos = pools.size(); pos; --pos) pools[pos - 1].second->remove(e);
        auto i = to_entity(e);
        slots[i].alive = false; slots[i].id = entt_traits<entity>::next(e); free_ids.push_back(i);
        return to_version(slots[i].id);
    }
    template<typename It> void destroy(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) destroy(e); }

    template<typename T> auto &storage() { return assure<std::remove_const_t<T>>(); }
    template<typename T> const store<T> *storage() const { return find_pool<std::remove_const_t<T>>(); }
    auto &mini_pools() { return pools; }
    template<typename F> void mini_each_entity(F f) const { for (auto &s : slots) if (s.alive) f(s.id); }

    template<typename T, typename... A> decltype(auto) emplace(entity e, A &&...a) { MINI_ASSERT(valid(e), "emplace on an invalid entity"); return assure<T>().emplace(e, std::forward<A>(a)...); }
    template<typename T, typename It> void insert(It first, It last, const T &v = {}) { for (; first != last; ++first) { if constexpr (std::is_empty_v<T>) emplace<T>(*first); else emplace<T>(*first, v); } }
    template<typename T, typename... A> decltype(auto) emplace_or_replace(entity e, A &&...a) {
        auto &p = assure<T>();
        if (p.contains(e)) return replace_in(p, e, std::forward<A>(a)...);
        MINI_ASSERT(valid(e), "emplace on an invalid entity");
        return p.emplace(e, std::forward<A>(a)...);
    }
    template<typename T, typename... F> decltype(auto) patch(entity e, F &&...f) { return assure<T>().patch(e, std::forward<F>(f)...); }
    template<typename T, typename... A> decltype(auto) replace(entity e, A &&...a) { return replace_in(assure<T>(), e, std::forward<A>(a)...); }
    template<typename T, typename... U> size_type remove(entity e) { return (assure<T>().remove(e) + ... + assure<U>().remove(e)); }
    template<typename T, typename... U, typename It, typename = std::enable_if_t<!std::is_same_v<It, entity>>> size_type remove(It first, It last) { size_type n = 0; std::vector<entity> v(first, last); for (auto e : v) n += remove<T, U...>(e); return n; }
    template<typename T, typename... U> void erase(entity e) { (assure<T>().erase(e), (assure<U>().erase(e), ...)); }
    template<typename T, typename... U, typename It, typename = std::enable_if_t<!std::is_same_v<It, entity>>> void erase(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) erase<T, U...>(e); }
    template<typename... T> bool all_of(entity e) const { return ([&] { auto *p = find_pool<std::remove_const_t<T>>(); return p && p->contains(e); }() && ...); }
    template<typename... T> bool any_of(entity e) const { return ([&] { auto *p = find_pool<std::remove_const_t<T>>(); return p && p->contains(e); }() || ...); }
    template<typename... T> decltype(auto) get(entity e) {
        if constexpr (sizeof...(T) == 1) return (const_get<T>(assure<std::remove_const_t<T>>()).get(e), ...);
        else return std::forward_as_tuple(get<T>(e)...);
    }
    template<typename... T> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(T) == 1) return (pool_or_die<std::remove_const_t<T>>().get(e), ...);
        else return std::forward_as_tuple(get<T>(e)...);
    }
    template<typename T, typename... A> decltype(auto) get_or_emplace(entity e, A &&...a) { auto &p = assure<T>(); if (p.contains(e)) return static_cast<decltype(p.get(e))>(p.get(e)); return p.emplace(e, std::forward<A>(a)...); }
    template<typename... T> auto try_get(entity e) {
        if constexpr (sizeof...(T) == 1) { auto *p = (find_pool<std::remove_const_t<T>>(), ...); return (p && p->contains(e)) ? static_cast<typename first<T...>::type *>(&p->get(e)) : nullptr; }
        else return std::make_tuple(try_get<T>(e)...);
    }
    template<typename... T> auto try_get(entity e) const {
        if constexpr (sizeof...(T) == 1) { auto *p = (find_pool<std::remove_const_t<T>>(), ...); return (p && p->contains(e)) ? static_cast<const typename first<T...>::type *>(&p->get(e)) : nullptr; }
        else return std::make_tuple(try_get<T>(e)...);
    }
    template<typename... T> void clear() {
        if constexpr (sizeof...(T) == 0) {
            for (auto pos = pools.size(); pos; --pos) pools[pos - 1].second->clear();
            for (std::uint32_t i = 0; i < slots.size(); ++i) if (slots[i].alive) { slots[i].alive = false; slots[i].id = entt_traits<entity>::next(slots[i].id); free_ids.push_back(i); }
        } else (static_cast<sparse_set &>(assure<T>()).clear(), ...);
    }
    bool orphan(entity e) const { for (auto &p : pools) if (p.second->contains(e)) return false; return true; }
    template<typename T> auto on_construct() { return assure<T>().on_construct(); }
    template<typename T> auto on_update() { return assure<T>().on_update(); }
    template<typename T> auto on_destroy() { return assure<T>().on_destroy(); }
    template<typename... T, typename... X> basic_view<get_t<storage_for_type<T>...>, exclude_t<storage_for_type<X>...>> view(exclude_t<X...> = exclude_t<>{}) {
        return basic_view<get_t<storage_for_type<T>...>, exclude_t<storage_for_type<X>...>>{std::tuple<storage_for_type<T> *...>{&assure<std::remove_const_t<T>>()...}, std::tuple<storage_for_type<X> *...>{&assure<std::remove_const_t<X>>()...}};
    }
    template<typename... T, typename... X> basic_view<get_t<storage_for_type<const T>...>, exclude_t<storage_for_type<const X>...>> view(exclude_t<X...> = exclude_t<>{}) const {
        return basic_view<get_t<storage_for_type<const T>...>, exclude_t<storage_for_type<const X>...>>{std::tuple<storage_for_type<const T> *...>{find_pool<std::remove_const_t<T>>()...}, std::tuple<storage_for_type<const X> *...>{find_pool<std::remove_const_t<X>>()...}};
    }
private:
    template<typename T, typename...> struct first { using type = T; };
    template<typename T, typename P> static auto &const_get(P &p) { if constexpr (std::is_const_v<T>) return std::as_const(p); else return p; }
    template<typename P, typename... A> static decltype(auto) replace_in(P &p, entity e, A &&...a) {
        using T = typename P::value_type;
        if constexpr (std::is_empty_v<T>) return p.patch(e);
        else if constexpr (std::is_aggregate_v<T>) return p.patch(e, [&a...](auto &...x) { ((x = T{std::forward<A>(a)...}), ...); });
        else return p.patch(e, [&a...](auto &...x) { ((x = T(std::forward<A>(a)...)), ...); });
    }
    template<typename T> store<T> &assure() {
        auto id = type_hash<T>::value();
        auto it = index.find(id);
        if (it != index.end()) return static_cast<store<T> &>(*pools[it->second].second);
        auto p = std::make_shared<store<T>>();
        p->bind(this);
        index.emplace(id, pools.size());
        pools.emplace_back(id, p);
        return *p;
    }
    template<typename T> store<T> *find_pool() const {
        auto it = index.find(type_hash<T>::value());
        return it == index.end() ? nullptr : static_cast<store<T> *>(pools[it->second].second.get());
    }
    template<typename T> const store<T> &pool_or_die() const { auto *p = find_pool<T>(); MINI_ASSERT(p, "no such component"); return *p; }
    void rebind() { index.clear(); for (std::size_t i = 0; i < pools.size(); ++i) { index.emplace(pools[i].first, i); pools[i].second->bind(this); } }
    struct slot { entity id; bool alive; };
    context vars{};
    std::vector<std::pair<id_type, std::shared_ptr<sparse_set>>> pools;
    std::unordered_map<id_type, std::size_t> index;
    std::vector<slot> slots;
    std::vector<std::uint32_t> free_ids;
};
template<typename T, typename X = exclude_t<>> using mini_view = basic_view<T, X>;

}
