// Stand-in for the parts of EnTT's runtime reflection that edyn uses: data members, handles, references,
// sequence and associative containers.
#pragma once
#include "mini.hpp"
namespace entt {
struct as_ref_t {};
struct as_is_t {};
class meta_any; class meta_type; class meta_data; class meta_sequence_container; class meta_associative_container;
namespace mini_meta {
template<typename T, typename = void> struct is_seq : std::false_type {};
template<typename T, typename A> struct is_seq<std::vector<T, A>> : std::true_type {};
template<typename T, typename A> struct is_seq<std::deque<T, A>> : std::true_type {};
template<typename T, typename A> struct is_seq<std::list<T, A>> : std::true_type {};
template<typename T, std::size_t N> struct is_seq<std::array<T, N>> : std::true_type {};
template<typename T> struct is_array : std::false_type {};
template<typename T, std::size_t N> struct is_array<std::array<T, N>> : std::true_type {};
template<typename T> struct is_assoc : std::false_type {};
template<typename K, typename V, typename... R> struct is_assoc<std::map<K, V, R...>> : std::true_type {};
template<typename K, typename V, typename... R> struct is_assoc<std::unordered_map<K, V, R...>> : std::true_type {};
struct type_node;
struct data_node {
    id_type id; type_node *type;
    std::function<meta_any(void *)> get;
    std::function<bool(void *, meta_any &)> set;
};
struct seq_ops {
    type_node *(*value)();
    std::size_t (*size)(void *);
    meta_any (*at)(void *, std::size_t);
    bool (*erase)(void *, std::size_t);
};
struct assoc_ops {
    type_node *(*key)(); type_node *(*mapped)();
    std::size_t (*size)(void *);
    std::pair<meta_any, meta_any> (*at)(void *, std::size_t);
    std::size_t (*erase)(void *, void *);
};
struct type_node {
    const type_info *info; id_type id; bool registered = false;
    const seq_ops *seq = nullptr; const assoc_ops *assoc = nullptr;
    std::vector<data_node> data;
    std::shared_ptr<void> (*copy)(const void *) = nullptr;
};
inline std::map<id_type, type_node *> &table() { static std::map<id_type, type_node *> t; return t; }
template<typename T> type_node *node();
}
class meta_any {
public:
    meta_any() = default;
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_any>>> meta_any(T &&v)
        : owned(std::make_shared<std::decay_t<T>>(std::forward<T>(v))), ptr(owned.get()), n(mini_meta::node<std::decay_t<T>>()) {}
    static meta_any ref(void *p, mini_meta::type_node *n) { meta_any a; a.ptr = p; a.n = n; return a; }
    // copies of references refer to the same object, copies of values are values
    meta_any(const meta_any &o) : owned(o.owned && o.n && o.n->copy ? o.n->copy(o.ptr) : o.owned), ptr(o.owned ? owned.get() : o.ptr), n(o.n) {}
    meta_any(meta_any &&) = default;
    meta_any &operator=(meta_any o) { owned = std::move(o.owned); ptr = o.ptr; n = o.n; return *this; }
    explicit operator bool() const { return n != nullptr; }
    inline meta_type type() const;
    void *data() const { return ptr; }
    template<typename T> T cast() const {
        using U = std::remove_cv_t<std::remove_reference_t<T>>;
        MINI_ASSERT(n && *n->info == type_id<U>(), "meta_any cast to another type");
        return static_cast<T>(*static_cast<U *>(ptr));
    }
    template<typename T> T *try_cast() const { using U = std::remove_cv_t<T>; return n && *n->info == type_id<U>() ? static_cast<T *>(ptr) : nullptr; }
    inline meta_sequence_container as_sequence_container();
    inline meta_associative_container as_associative_container();
    mini_meta::type_node *node() const { return n; }
private:
    std::shared_ptr<void> owned; void *ptr = nullptr; mini_meta::type_node *n = nullptr;
};
struct meta_handle {
    meta_handle() = default;
    meta_handle(meta_any &a) : ptr(a.data()) {}
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_any> && !std::is_same_v<std::decay_t<T>, meta_handle>>> meta_handle(T &v) : ptr(const_cast<std::remove_const_t<T> *>(&v)) {}
    void *ptr = nullptr;
};
class meta_data {
public:
    explicit meta_data(mini_meta::data_node *d = nullptr) : d(d) {}
    inline meta_type type() const;
    meta_any get(meta_handle h) const { return d->get(h.ptr); }
    template<typename T> bool set(meta_handle h, T &&v) const { meta_any a(std::forward<T>(v)); return d->set(h.ptr, a); }
    explicit operator bool() const { return d != nullptr; }
private:
    mini_meta::data_node *d;
};
class meta_type {
public:
    meta_type() = default;
    explicit meta_type(mini_meta::type_node *n) : n(n) {}
    const type_info &info() const { return *n->info; }
    id_type id() const { return n ? n->id : id_type{}; }
    bool is_sequence_container() const { return n && n->seq; }
    bool is_associative_container() const { return n && n->assoc; }
    std::vector<std::pair<id_type, meta_data>> data() const {
        std::vector<std::pair<id_type, meta_data>> v;
        if (n) for (auto &d : n->data) v.emplace_back(d.id, meta_data(&d));
        return v;
    }
    explicit operator bool() const { return n != nullptr; }
    bool operator==(const meta_type &o) const { return (!n && !o.n) || (n && o.n && *n->info == *o.n->info); }
    bool operator!=(const meta_type &o) const { return !(*this == o); }
private:
    mini_meta::type_node *n = nullptr;
};
class meta_sequence_container {
public:
    class iterator {
    public:
        using value_type = meta_any; using pointer = meta_any *; using reference = meta_any; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        iterator() = default;
        iterator(meta_sequence_container *c, std::size_t i) : ops(c->ops), obj(c->obj), i(i) {}
        iterator &operator++() { ++i; return *this; }
        iterator operator++(int) { auto t = *this; ++i; return t; }
        meta_any operator*() const { return ops->at(obj, i); }
        explicit operator bool() const { return ops != nullptr; }
        bool operator==(const iterator &o) const { return i == o.i; }
        bool operator!=(const iterator &o) const { return !(*this == o); }
        std::size_t pos() const { return i; }
    private:
        const mini_meta::seq_ops *ops = nullptr; void *obj = nullptr; std::size_t i = 0;
    };
    meta_sequence_container() = default;
    meta_sequence_container(const mini_meta::seq_ops *o, void *p) : ops(o), obj(p) {}
    meta_type value_type() const { return ops ? meta_type(ops->value()) : meta_type(); }
    std::size_t size() const { return ops->size(obj); }
    iterator begin() { return {this, 0}; }
    iterator end() { return {this, size()}; }
    iterator erase(iterator it) { return ops->erase(obj, it.pos()) ? iterator{this, it.pos()} : iterator{}; }
    meta_any operator[](std::size_t i) { return ops->at(obj, i); }
    explicit operator bool() const { return ops != nullptr; }
private:
    const mini_meta::seq_ops *ops = nullptr; void *obj = nullptr;
};
class meta_associative_container {
public:
    class iterator {
    public:
        using value_type = std::pair<meta_any, meta_any>; using reference = value_type; using pointer = value_type *; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        iterator(const mini_meta::assoc_ops *o, void *p, std::size_t i) : ops(o), obj(p), i(i) {}
        iterator &operator++() { ++i; return *this; }
        value_type operator*() const { return ops->at(obj, i); }
        bool operator==(const iterator &o) const { return i == o.i; }
        bool operator!=(const iterator &o) const { return i != o.i; }
    private:
        const mini_meta::assoc_ops *ops; void *obj; std::size_t i;
    };
    meta_associative_container() = default;
    meta_associative_container(const mini_meta::assoc_ops *o, void *p) : ops(o), obj(p) {}
    meta_type key_type() const { return ops ? meta_type(ops->key()) : meta_type(); }
    meta_type mapped_type() const { return ops ? meta_type(ops->mapped()) : meta_type(); }
    std::size_t size() const { return ops->size(obj); }
    iterator begin() { return {ops, obj, 0}; }
    iterator end() { return {ops, obj, size()}; }
    std::size_t erase(meta_any key) { return ops->erase(obj, key.data()); }
    explicit operator bool() const { return ops != nullptr; }
private:
    const mini_meta::assoc_ops *ops = nullptr; void *obj = nullptr;
};
inline meta_type meta_any::type() const { return meta_type(n); }
inline meta_type meta_data::type() const { return meta_type(d ? d->type : nullptr); }
inline meta_sequence_container meta_any::as_sequence_container() { return n && n->seq ? meta_sequence_container(n->seq, ptr) : meta_sequence_container(); }
inline meta_associative_container meta_any::as_associative_container() { return n && n->assoc ? meta_associative_container(n->assoc, ptr) : meta_associative_container(); }
namespace mini_meta {
template<typename C> const seq_ops *make_seq() {
    static const seq_ops o{
        [] { return node<typename C::value_type>(); },
        [](void *p) { return static_cast<C *>(p)->size(); },
        [](void *p, std::size_t i) { auto it = static_cast<C *>(p)->begin(); std::advance(it, i); return meta_any::ref(&*it, node<typename C::value_type>()); },
        [](void *p, std::size_t i) -> bool {
            if constexpr (is_array<C>::value) return false;
            else { auto &c = *static_cast<C *>(p); auto it = c.begin(); std::advance(it, i); c.erase(it); return true; }
        }};
    return &o;
}
template<typename C> const assoc_ops *make_assoc() {
    static const assoc_ops o{
        [] { return node<typename C::key_type>(); }, [] { return node<typename C::mapped_type>(); },
        [](void *p) { return static_cast<C *>(p)->size(); },
        [](void *p, std::size_t i) { auto it = static_cast<C *>(p)->begin(); std::advance(it, i); return std::pair<meta_any, meta_any>(meta_any(typename C::key_type(it->first)), meta_any::ref(&it->second, node<typename C::mapped_type>())); },
        [](void *p, void *k) -> std::size_t { return static_cast<C *>(p)->erase(*static_cast<typename C::key_type *>(k)); }};
    return &o;
}
template<typename T> type_node *node() {
    static type_node *n = [] {
        auto *x = new type_node;
        x->info = &type_id<T>(); x->id = type_id<T>().hash();
        if constexpr (is_seq<T>::value) { if constexpr (!std::is_same_v<T, std::vector<bool>>) x->seq = make_seq<T>(); }
        if constexpr (is_assoc<T>::value) x->assoc = make_assoc<T>();
        if constexpr (std::is_copy_constructible_v<T>) x->copy = [](const void *p) -> std::shared_ptr<void> { return std::make_shared<T>(*static_cast<const T *>(p)); };
        return x;
    }();
    return n;
}
template<typename> struct member;
template<typename C, typename M> struct member<M C::*> { using cls = C; using type = M; };
}
template<typename T> meta_type resolve() { return meta_type(mini_meta::node<std::remove_cv_t<std::remove_reference_t<T>>>()); }
inline meta_type resolve(id_type id) { auto &t = mini_meta::table(); auto it = t.find(id); return it == t.end() ? meta_type() : meta_type(it->second); }
template<typename T> class meta_factory {
public:
    meta_factory() { auto *n = mini_meta::node<T>(); n->registered = true; mini_meta::table()[n->id] = n; }
    meta_factory &type(id_type id) { auto *n = mini_meta::node<T>(); mini_meta::table().erase(n->id); n->id = id; mini_meta::table()[id] = n; return *this; }
    template<auto D, typename Policy = as_is_t> meta_factory &data(id_type id) {
        using M = typename mini_meta::member<decltype(D)>::type;
        auto *n = mini_meta::node<T>();
        n->data.erase(std::remove_if(n->data.begin(), n->data.end(), [&](auto &d) { return d.id == id; }), n->data.end());
        mini_meta::data_node d;
        d.id = id; d.type = mini_meta::node<std::remove_cv_t<M>>();
        d.get = [](void *o) -> meta_any {
            auto &m = static_cast<T *>(o)->*D;
            if constexpr (std::is_same_v<Policy, as_ref_t>) return meta_any::ref(&m, mini_meta::node<std::remove_cv_t<M>>());
            else return meta_any(M(m));
        };
        d.set = [](void *o, meta_any &v) -> bool { if constexpr (std::is_copy_assignable_v<M>) { static_cast<T *>(o)->*D = v.template cast<M>(); return true; } else return false; };
        n->data.push_back(d);
        return *this;
    }
};
inline void meta_reset() { for (auto &p : mini_meta::table()) { p.second->data.clear(); p.second->registered = false; } mini_meta::table().clear(); }
}
