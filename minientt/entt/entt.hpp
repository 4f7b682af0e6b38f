// A small stand-in for the parts of EnTT 3.15 that edyn uses, written for the checks in /verif because EnTT itself is not available
// in this sandbox. It follows the documented semantics of EnTT (sparse sets with swap-and-pop, paged component storage with stable
// addresses, reverse iteration, signals, context variables, a subset of the runtime reflection) and asserts the documented preconditions.
#ifndef MINIENTT_HPP
#define MINIENTT_HPP
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#define MINIENTT_ASSERT(cond, msg) do { if (!(cond)) { std::fprintf(stderr, "entt precondition violated: %s (%s:%d)\n", msg, __FILE__, __LINE__); std::abort(); } } while (0)

namespace entt {

using id_type = std::uint32_t;

// ---------------------------------------------------------------- types
struct type_info { id_type h{}; std::string_view n{}; constexpr id_type hash() const { return h; } constexpr std::string_view name() const { return n; } constexpr id_type index() const { return h; } };
constexpr bool operator==(const type_info &a, const type_info &b) { return a.h == b.h; }
constexpr bool operator!=(const type_info &a, const type_info &b) { return a.h != b.h; }
constexpr id_type fnv(std::string_view s) { id_type v = 2166136261u; for (char ch : s) v = (v ^ static_cast<unsigned char>(ch)) * 16777619u; return v; }
template<typename T> constexpr std::string_view stripped_name() { return __PRETTY_FUNCTION__; }
template<typename T> struct type_hash { static constexpr id_type value() { return fnv(stripped_name<T>()); } constexpr operator id_type() const { return value(); } };
template<typename T> const type_info &type_id() { static const type_info info{type_hash<std::remove_cv_t<std::remove_reference_t<T>>>::value(), stripped_name<std::remove_cv_t<std::remove_reference_t<T>>>()}; return info; }
struct hashed_string { id_type v{}; constexpr hashed_string() = default; constexpr hashed_string(const char *s) : v(fnv(s)) {} constexpr hashed_string(const char *s, size_t n) : v(fnv({s, n})) {} constexpr operator id_type() const { return v; } constexpr id_type value() const { return v; } };
namespace literals { constexpr hashed_string operator""_hs(const char *s, size_t n) { return {s, n}; } }
struct identity { template<typename T> constexpr T &&operator()(T &&v) const { return std::forward<T>(v); } };
template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>> using dense_map = std::unordered_map<K, V, H, E>;
template<typename... T> struct type_list { static constexpr auto size = sizeof...(T); };
template<typename T> struct type_identity { using type = T; };

// ---------------------------------------------------------------- entities
enum class entity : std::uint32_t {};
template<typename> struct entt_traits;
template<> struct entt_traits<entity> {
    using value_type = entity; using entity_type = std::uint32_t; using version_type = std::uint16_t;
    static constexpr entity_type entity_mask = 0xFFFFF, version_mask = 0xFFF; static constexpr std::size_t entity_shift = 20;
    static constexpr std::size_t page_size = 4096;
    static constexpr entity_type to_integral(entity e) { return static_cast<entity_type>(e); }
    static constexpr entity_type to_entity(entity e) { return to_integral(e) & entity_mask; }
    static constexpr version_type to_version(entity e) { return static_cast<version_type>(to_integral(e) >> entity_shift); }
    static constexpr entity construct(entity_type i, version_type v) { return entity{(i & entity_mask) | (static_cast<entity_type>(v) << entity_shift)}; }
    static constexpr entity next(entity e) { auto v = static_cast<version_type>(to_version(e) + 1); v = static_cast<version_type>(v & version_mask); return construct(to_entity(e), static_cast<version_type>(v + (v == version_mask))); }
};
constexpr std::uint32_t to_integral(entity e) { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_entity(entity e) { return entt_traits<entity>::to_entity(e); }
constexpr std::uint16_t to_version(entity e) { return entt_traits<entity>::to_version(e); }
struct null_t {
    constexpr operator entity() const { return entt_traits<entity>::construct(entt_traits<entity>::entity_mask, entt_traits<entity>::version_mask); }
    constexpr bool operator==(null_t) const { return true; }
    constexpr bool operator!=(null_t) const { return false; }
    constexpr bool operator==(entity e) const { return to_entity(e) == entt_traits<entity>::entity_mask; }
    constexpr bool operator!=(entity e) const { return !(*this == e); }
};
constexpr bool operator==(entity e, null_t n) { return n == e; }
constexpr bool operator!=(entity e, null_t n) { return n != e; }
inline constexpr null_t null{};

// ---------------------------------------------------------------- delegates and signals
template<auto> struct connect_arg_t {};
template<auto C> inline constexpr connect_arg_t<C> connect_arg{};
template<typename> class delegate;
namespace internal {
template<auto C, typename Ret, typename Pre, typename Tup, std::size_t N> struct call_n;
template<typename F, typename Pre, typename Tup, typename Seq> struct can_call;
template<typename F, typename... Pre, typename Tup, std::size_t... I> struct can_call<F, type_list<Pre...>, Tup, std::index_sequence<I...>> : std::is_invocable<F, Pre..., std::tuple_element_t<I, Tup>...> {};
template<typename F, typename Pre, typename Tup, std::size_t N> constexpr std::size_t count_args() {
    if constexpr (can_call<F, Pre, Tup, std::make_index_sequence<N>>::value) return N;
    else { static_assert(N != 0, "candidate cannot be called"); return count_args<F, Pre, Tup, N - 1>(); }
}
template<auto C, typename Tup, std::size_t... I, typename... Pre> decltype(auto) call(Tup &t, std::index_sequence<I...>, Pre &&...pre) { return std::invoke(C, std::forward<Pre>(pre)..., std::forward<std::tuple_element_t<I, Tup>>(std::get<I>(t))...); }
template<typename Ret, typename... Args> auto fptr(Ret (*)(Args...)) -> Ret (*)(Args...);
template<typename Ret, typename T, typename... Args, typename O> auto fptr(Ret (*)(T, Args...), O &&) -> Ret (*)(Args...);
template<typename C, typename Ret, typename... Args, typename... O> auto fptr(Ret (C::*)(Args...), O &&...) -> Ret (*)(Args...);
template<typename C, typename Ret, typename... Args, typename... O> auto fptr(Ret (C::*)(Args...) const, O &&...) -> Ret (*)(Args...);
}
template<typename Ret, typename... Args> class delegate<Ret(Args...)> {
    using fn_t = Ret(const void *, Args...);
    using tup = std::tuple<Args...>;
    fn_t *fn{};
    const void *inst{};
public:
    using function_type = fn_t; using type = Ret(Args...); using result_type = Ret;
    delegate() = default;
    delegate(fn_t *f, const void *p = nullptr) { fn = f; inst = p; }
    template<auto C> delegate(connect_arg_t<C>) { connect<C>(); }
    template<auto C, typename T> delegate(connect_arg_t<C>, T &&v) { connect<C>(std::forward<T>(v)); }
    template<auto C> void connect() {
        inst = nullptr;
        fn = [](const void *, Args... args) -> Ret { tup t(std::forward<Args>(args)...); return Ret(internal::call<C>(t, std::make_index_sequence<internal::count_args<decltype(C), type_list<>, tup, sizeof...(Args)>()>{})); };
    }
    template<auto C, typename T> void connect(T &v) {
        inst = std::addressof(v);
        fn = [](const void *p, Args... args) -> Ret { tup t(std::forward<Args>(args)...); T &o = *static_cast<T *>(const_cast<void *>(p)); return Ret(internal::call<C>(t, std::make_index_sequence<internal::count_args<decltype(C), type_list<T &>, tup, sizeof...(Args)>()>{}, o)); };
    }
    template<auto C, typename T> void connect(T *v) {
        inst = v;
        fn = [](const void *p, Args... args) -> Ret { tup t(std::forward<Args>(args)...); T *o = static_cast<T *>(const_cast<void *>(p)); return Ret(internal::call<C>(t, std::make_index_sequence<internal::count_args<decltype(C), type_list<T *>, tup, sizeof...(Args)>()>{}, o)); };
    }
    void connect(fn_t *f, const void *p = nullptr) { fn = f; inst = p; }
    void reset() { fn = nullptr; inst = nullptr; }
    fn_t *target() const { return fn; }
    const void *data() const { return inst; }
    Ret operator()(Args... args) const { MINIENTT_ASSERT(fn, "uninitialized delegate"); return fn(inst, std::forward<Args>(args)...); }
    explicit operator bool() const { return fn != nullptr; }
    bool operator==(const delegate &o) const { return fn == o.fn && inst == o.inst; }
    bool operator!=(const delegate &o) const { return !(*this == o); }
};
template<auto C> delegate(connect_arg_t<C>) -> delegate<std::remove_pointer_t<decltype(internal::fptr(C))>>;
template<auto C, typename T> delegate(connect_arg_t<C>, T &&) -> delegate<std::remove_pointer_t<decltype(internal::fptr(C, std::declval<T>()))>>;

template<typename> class sigh;
template<typename> class sink;
class connection { template<typename> friend class sink; std::function<void()> rel; public: connection() = default; explicit operator bool() const { return static_cast<bool>(rel); } void release() { if (rel) { rel(); rel = nullptr; } } };
class scoped_connection {
    connection c;
public:
    scoped_connection() = default;
    scoped_connection(const connection &o) : c(o) {}
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection(scoped_connection &&o) noexcept : c(std::exchange(o.c, {})) {}
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&o) noexcept { c.release(); c = std::exchange(o.c, {}); return *this; }
    scoped_connection &operator=(connection o) { c.release(); c = std::move(o); return *this; }
    ~scoped_connection() { c.release(); }
    explicit operator bool() const { return static_cast<bool>(c); }
    void release() { c.release(); }
};
template<typename Ret, typename... Args> class sigh<Ret(Args...)> {
    friend class sink<sigh>;
    std::vector<delegate<Ret(Args...)>> calls;
public:
    using sink_type = sink<sigh>;
    std::size_t size() const { return calls.size(); }
    bool empty() const { return calls.empty(); }
    void publish(Args... args) const { for (auto pos = calls.size(); pos; --pos) { auto call = calls[pos - 1]; call(args...); } }
};
template<typename Ret, typename... Args> class sink<sigh<Ret(Args...)>> {
    using signal_t = sigh<Ret(Args...)>;
    signal_t *s;
    void drop(const delegate<Ret(Args...)> &d) { for (auto pos = s->calls.size(); pos; --pos) if (s->calls[pos - 1] == d) { s->calls[pos - 1] = s->calls.back(); s->calls.pop_back(); } }
public:
    using signal_type = signal_t;
    sink(signal_t &r) : s(&r) {}
    bool empty() const { return s->calls.empty(); }
    template<auto C, typename... T> connection connect(T &&...v) {
        delegate<Ret(Args...)> d; d.template connect<C>(v...); drop(d); s->calls.push_back(d);
        connection c; signal_t *sg = s; c.rel = [sg, d] { sink{*sg}.drop(d); }; return c;
    }
    template<auto C, typename... T> void disconnect(T &&...v) { delegate<Ret(Args...)> d; d.template connect<C>(v...); drop(d); }
    template<typename T> void disconnect(T &v) { for (auto pos = s->calls.size(); pos; --pos) if (s->calls[pos - 1].data() == &v) { s->calls[pos - 1] = s->calls.back(); s->calls.pop_back(); } }
    template<typename T> void disconnect(T *v) { for (auto pos = s->calls.size(); pos; --pos) if (s->calls[pos - 1].data() == v) { s->calls[pos - 1] = s->calls.back(); s->calls.pop_back(); } }
    void disconnect() { s->calls.clear(); }
};
template<typename Ret, typename... Args> sink(sigh<Ret(Args...)> &) -> sink<sigh<Ret(Args...)>>;

// ---------------------------------------------------------------- any
class any {
    struct base { virtual ~base() = default; virtual std::unique_ptr<base> copy() const = 0; const type_info *info{}; void *p{}; };
    template<typename T> struct holder : base {
        T v;
        template<typename... A> holder(A &&...a) : v(make(std::forward<A>(a)...)) { this->info = &type_id<T>(); this->p = &v; }
        template<typename... A> static T make(A &&...a) { if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...}; else return T(std::forward<A>(a)...); }
        std::unique_ptr<base> copy() const override { if constexpr (std::is_copy_constructible_v<T>) return std::make_unique<holder<T>>(v); else return nullptr; }
    };
    std::unique_ptr<base> b;
public:
    any() = default;
    template<typename T, typename... A> explicit any(std::in_place_type_t<T>, A &&...a) : b(std::make_unique<holder<T>>(std::forward<A>(a)...)) {}
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any>>> any(T &&v) : any(std::in_place_type<std::decay_t<T>>, std::forward<T>(v)) {}
    any(const any &o) : b(o.b ? o.b->copy() : nullptr) {}
    any(any &&) noexcept = default;
    any &operator=(const any &o) { b = o.b ? o.b->copy() : nullptr; return *this; }
    any &operator=(any &&) noexcept = default;
    const type_info &type() const { return b ? *b->info : type_id<void>(); }
    void *data() { return b ? b->p : nullptr; }
    const void *data() const { return b ? b->p : nullptr; }
    explicit operator bool() const { return static_cast<bool>(b); }
    void reset() { b.reset(); }
    template<typename T, typename... A> void emplace(A &&...a) { b = std::make_unique<holder<T>>(std::forward<A>(a)...); }
};
template<typename T> T *any_cast(any *a) { return a && a->type() == type_id<T>() ? static_cast<T *>(a->data()) : nullptr; }
template<typename T> const T *any_cast(const any *a) { return a && a->type() == type_id<T>() ? static_cast<const T *>(a->data()) : nullptr; }
template<typename T> std::remove_reference_t<T> &any_cast(any &a) { auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a); MINIENTT_ASSERT(p, "any_cast"); return *p; }
template<typename T> const std::remove_reference_t<T> &any_cast(const any &a) { auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a); MINIENTT_ASSERT(p, "any_cast"); return *p; }

// ---------------------------------------------------------------- sparse set and storage
enum class deletion_policy { swap_and_pop, in_place };
class sparse_set {
    static constexpr std::uint32_t npos = 0xFFFFFFFFu;
    std::vector<std::uint32_t> sparse;
    std::vector<std::uint32_t> holes;
protected:
    std::vector<entity> packed;
    deletion_policy mode{deletion_policy::swap_and_pop};
    const type_info *info_{&type_id<void>()};
    virtual void erase_at(std::size_t pos) { // payload first
        auto e = packed[pos]; sparse[to_entity(e)] = npos;
        if (mode == deletion_policy::in_place) { destroy_payload(pos); packed[pos] = null; holes.push_back(static_cast<std::uint32_t>(pos)); }
        else { auto last = packed.size() - 1; move_payload(pos, last); if (pos != last) { packed[pos] = packed[last]; sparse[to_entity(packed[pos])] = static_cast<std::uint32_t>(pos); } packed.pop_back(); }
    }
    virtual void destroy_payload(std::size_t) {}
    virtual void move_payload(std::size_t, std::size_t) {}
    std::size_t push_entity(entity e) {
        MINIENTT_ASSERT(e != null, "null entity"); auto i = to_entity(e);
        if (i >= sparse.size()) sparse.resize(i + 1, npos);
        MINIENTT_ASSERT(sparse[i] == npos, "slot not available: the entity is already in the set");
        std::size_t pos;
        if (mode == deletion_policy::in_place && !holes.empty()) { pos = holes.back(); holes.pop_back(); packed[pos] = e; } else { pos = packed.size(); packed.push_back(e); }
        sparse[i] = static_cast<std::uint32_t>(pos); return pos;
    }
    virtual void remove_one(entity e) { erase_at(index(e)); }
public:
    using entity_type = entity; using size_type = std::size_t; using value_type = entity;
    class iterator {
        const std::vector<entity> *p{}; std::ptrdiff_t o{};
    public:
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
        iterator() = default; iterator(const std::vector<entity> &v, std::ptrdiff_t off) : p(&v), o(off) {}
        iterator &operator++() { --o; return *this; } iterator operator++(int) { auto c = *this; ++*this; return c; }
        iterator &operator--() { ++o; return *this; } iterator operator--(int) { auto c = *this; --*this; return c; }
        iterator &operator+=(difference_type n) { o -= n; return *this; } iterator operator+(difference_type n) const { auto c = *this; c += n; return c; }
        iterator &operator-=(difference_type n) { o += n; return *this; } iterator operator-(difference_type n) const { auto c = *this; c -= n; return c; }
        difference_type operator-(const iterator &i) const { return i.o - o; }
        reference operator*() const { return (*p)[static_cast<std::size_t>(o - 1)]; } pointer operator->() const { return &**this; }
        reference operator[](difference_type n) const { return (*p)[static_cast<std::size_t>(o - n - 1)]; }
        bool operator==(const iterator &i) const { return o == i.o; } bool operator!=(const iterator &i) const { return o != i.o; }
        bool operator<(const iterator &i) const { return o > i.o; } bool operator>(const iterator &i) const { return o < i.o; }
        bool operator<=(const iterator &i) const { return o >= i.o; } bool operator>=(const iterator &i) const { return o <= i.o; }
        std::ptrdiff_t index() const { return o - 1; }
    };
    using const_iterator = iterator; using reverse_iterator = std::reverse_iterator<iterator>;
    sparse_set() = default;
    explicit sparse_set(const type_info &i, deletion_policy pol = deletion_policy::swap_and_pop) : mode(pol), info_(&i) {}
    sparse_set(const sparse_set &) = delete; sparse_set(sparse_set &&) = default;
    sparse_set &operator=(const sparse_set &) = delete; sparse_set &operator=(sparse_set &&) = default;
    virtual ~sparse_set() = default;
    bool contains(entity e) const { auto i = to_entity(e); return i < sparse.size() && sparse[i] != npos && packed[sparse[i]] == e; }
    std::size_t index(entity e) const { MINIENTT_ASSERT(contains(e), "set does not contain entity"); return sparse[to_entity(e)]; }
    std::size_t size() const { return packed.size(); }
    bool empty() const { return packed.empty(); }
    deletion_policy policy() const { return mode; }
    const type_info &info() const { return *info_; } const type_info &type() const { return *info_; }
    const entity *data() const { return packed.data(); }
    iterator begin() const { return {packed, static_cast<std::ptrdiff_t>(packed.size())}; }
    iterator end() const { return {packed, 0}; }
    iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
    reverse_iterator rbegin() const { return std::make_reverse_iterator(end()); } reverse_iterator rend() const { return std::make_reverse_iterator(begin()); }
    iterator find(entity e) const { return contains(e) ? iterator{packed, static_cast<std::ptrdiff_t>(index(e) + 1)} : end(); }
    entity operator[](std::size_t i) const { return packed[i]; }
    void reserve(std::size_t n) { packed.reserve(n); }
    iterator push(entity e) { auto pos = push_entity(e); return {packed, static_cast<std::ptrdiff_t>(pos + 1)}; }
    template<typename It> iterator push(It first, It last) { auto it = end(); for (; first != last; ++first) it = push(*first); return it; }
    void erase(entity e) { MINIENTT_ASSERT(contains(e), "set does not contain entity"); remove_one(e); }
    template<typename It> void erase(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) erase(e); }
    bool remove(entity e) { if (!contains(e)) return false; remove_one(e); return true; }
    template<typename It> std::size_t remove(It first, It last) { std::vector<entity> v(first, last); std::size_t n = 0; for (auto e : v) n += remove(e); return n; }
    void clear() { for (std::size_t pos = packed.size(); pos; --pos) if (pos <= packed.size() && packed[pos - 1] != null) remove_one(packed[pos - 1]); packed.clear(); holes.clear(); }
};

template<typename T, typename = void> struct in_place_of : std::bool_constant<!(std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)> {};
template<typename T> struct in_place_of<T, std::void_t<decltype(T::in_place_delete)>> : std::bool_constant<T::in_place_delete> {};

template<typename T> class basic_storage_impl : public sparse_set {
    static constexpr bool is_empty_type = std::is_empty_v<T>;
    static constexpr std::size_t page = 1024;
    std::vector<T *> pages;
    T *addr(std::size_t pos) const { return pages[pos / page] + pos % page; }
    T *raw(std::size_t pos) { while (pos / page >= pages.size()) pages.push_back(std::allocator<T>{}.allocate(page)); return addr(pos); }
protected:
    void destroy_payload(std::size_t pos) override { if constexpr (!is_empty_type) std::destroy_at(addr(pos)); }
    void move_payload(std::size_t pos, std::size_t last) override {
        if constexpr (!is_empty_type) {
            if constexpr (!in_place_of<T>::value) { if (pos != last) { [[maybe_unused]] T old = std::exchange(*addr(pos), std::move(*addr(last))); } std::destroy_at(addr(last)); }
        }
    }
    void drop_all() { if constexpr (!is_empty_type) { for (std::size_t i = 0; i < packed.size(); ++i) if (packed[i] != null) std::destroy_at(addr(i)); for (auto *p : pages) std::allocator<T>{}.deallocate(p, page); pages.clear(); } packed.clear(); }
public:
    using element_type = T; using type = T;
    basic_storage_impl() : sparse_set(type_id<T>(), in_place_of<T>::value ? deletion_policy::in_place : deletion_policy::swap_and_pop) {}
    basic_storage_impl(basic_storage_impl &&o) noexcept : sparse_set(std::move(o)), pages(std::exchange(o.pages, {})) {}
    basic_storage_impl &operator=(basic_storage_impl &&o) noexcept { drop_all(); sparse_set::operator=(std::move(o)); pages = std::exchange(o.pages, {}); return *this; }
    ~basic_storage_impl() override { drop_all(); }
    template<typename... A> decltype(auto) emplace_raw(entity e, A &&...a) {
        if constexpr (is_empty_type) { push_entity(e); if constexpr (sizeof...(A) != 0) { [[maybe_unused]] T tmp{std::forward<A>(a)...}; } }
        else {
            auto pos = push_entity(e);
            if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) return *(::new (static_cast<void *>(raw(pos))) T{std::forward<A>(a)...});
            else return *(::new (static_cast<void *>(raw(pos))) T(std::forward<A>(a)...));
        }
    }
    template<typename... A> decltype(auto) emplace(entity e, A &&...a) { return emplace_raw(e, std::forward<A>(a)...); }
    decltype(auto) get(entity e) { auto pos = index(e); if constexpr (!is_empty_type) return (*addr(pos)); else (void)pos; }
    decltype(auto) get(entity e) const { auto pos = index(e); if constexpr (!is_empty_type) return static_cast<const T &>(*addr(pos)); else (void)pos; }
    auto get_as_tuple(entity e) { if constexpr (is_empty_type) return std::tuple<>{}; else return std::forward_as_tuple(get(e)); }
    auto get_as_tuple(entity e) const { if constexpr (is_empty_type) return std::tuple<>{}; else return std::forward_as_tuple(get(e)); }
    template<typename... F> decltype(auto) patch(entity e, F &&...f) { auto pos = index(e); if constexpr (!is_empty_type) { auto &v = *addr(pos); (std::forward<F>(f)(v), ...); return v; } else { (void)pos; (std::forward<F>(f)(), ...); } }
    template<typename It> void insert(It first, It last, const T &v = {}) { for (; first != last; ++first) emplace(*first, v); }

    template<bool C> struct each_iter {
        using owner = std::conditional_t<C, const basic_storage_impl, basic_storage_impl>;
        using value_type = decltype(std::tuple_cat(std::tuple<entity>{}, std::declval<owner &>().get_as_tuple({}))); using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        owner *o{}; std::ptrdiff_t i{};
        void skip() { while (i > 0 && o->packed[static_cast<std::size_t>(i - 1)] == null) --i; }
        each_iter &operator++() { --i; skip(); return *this; }
        each_iter operator++(int) { auto c = *this; ++*this; return c; }
        value_type operator*() const { auto e = o->packed[static_cast<std::size_t>(i - 1)]; return std::tuple_cat(std::tuple<entity>{e}, o->get_as_tuple(e)); }
        bool operator==(const each_iter &r) const { return i == r.i; } bool operator!=(const each_iter &r) const { return i != r.i; }
    };
    template<bool C> struct each_range { each_iter<C> b, e; auto begin() const { return b; } auto end() const { return e; } };
    auto each() { each_iter<false> b{this, static_cast<std::ptrdiff_t>(packed.size())}; b.skip(); return each_range<false>{b, {this, 0}}; }
    auto each() const { each_iter<true> b{this, static_cast<std::ptrdiff_t>(packed.size())}; b.skip(); return each_range<true>{b, {this, 0}}; }
};
template<typename T> class storage : public basic_storage_impl<T> { public: using basic_storage_impl<T>::basic_storage_impl; };

class registry;
template<typename T> class sigh_storage : public basic_storage_impl<T> {
    using base = basic_storage_impl<T>; using sig = sigh<void(registry &, entity)>;
    registry *owner{}; sig construct, update, destruct;
protected:
    void remove_one(entity e) override { if (!destruct.empty()) { destruct.publish(*owner, e); if (!this->contains(e)) return; } this->erase_at(this->index(e)); }
public:
    explicit sigh_storage(registry &r) : owner(&r) {}
    auto on_construct() { return sink{construct}; } auto on_update() { return sink{update}; } auto on_destroy() { return sink{destruct}; }
    template<typename... A> decltype(auto) emplace(entity e, A &&...a) { base::emplace_raw(e, std::forward<A>(a)...); construct.publish(*owner, e); return this->get(e); }
    template<typename... F> decltype(auto) patch(entity e, F &&...f) { base::patch(e, std::forward<F>(f)...); update.publish(*owner, e); return this->get(e); }
    template<typename It> void insert(It first, It last, const T &v) { std::vector<entity> es(first, last); for (auto e : es) base::emplace_raw(e, v); for (auto e : es) construct.publish(*owner, e); }
};

// ---------------------------------------------------------------- views
template<typename... T> struct get_t : type_list<T...> {};
template<typename... T> struct exclude_t : type_list<T...> { constexpr exclude_t() = default; };
template<typename... T> inline constexpr get_t<T...> get{};
template<typename... T> inline constexpr exclude_t<T...> exclude{};
namespace internal {
template<typename S> using elem_t = std::conditional_t<std::is_const_v<S>, const typename S::element_type, typename S::element_type>;
template<typename T, typename... S> constexpr std::size_t index_of() { std::size_t i = 0, r = sizeof...(S); ((std::is_same_v<std::remove_const_t<T>, typename std::remove_const_t<S>::element_type> && r == sizeof...(S) ? (r = i, void()) : void(), ++i), ...); return r; }
template<typename F, typename Tup> struct applicable; template<typename F, typename... A> struct applicable<F, std::tuple<A...>> : std::is_invocable<F, A...> {};
}
template<typename, typename> class basic_view;
template<typename... Get, typename... Ex> class basic_view<get_t<Get...>, exclude_t<Ex...>> {
    template<typename, typename> friend class basic_view;
    std::tuple<Get *...> pools{}; std::tuple<Ex *...> filter{}; const sparse_set *leading{};
    void refresh() { leading = nullptr; bool all = true; std::apply([&](auto *...p) { ((all = all && p != nullptr), ...); if (all) ((leading = (!leading || p->size() < leading->size()) ? static_cast<const sparse_set *>(p) : leading), ...); }, pools); }
    bool accept(entity e) const { return e != null && std::apply([&](auto *...p) { return (p->contains(e) && ...); }, pools) && std::apply([&](auto *...p) { return (!(p && p->contains(e)) && ...); }, filter); }
public:
    static constexpr bool single = sizeof...(Get) == 1 && sizeof...(Ex) == 0;
    class iterator {
        const basic_view *v{}; const sparse_set *s{}; std::ptrdiff_t o{}; basic_view copy_;
        friend class basic_view;
        void skip() { while (o > 0 && !copy_.accept(s->data()[o - 1])) --o; }
    public:
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::conditional_t<single, std::random_access_iterator_tag, std::forward_iterator_tag>;
        iterator() = default;
        iterator(const basic_view &view, std::ptrdiff_t off) : v(&view), s(view.leading), o(off), copy_(view) { if (s) skip(); }
        iterator &operator++() { --o; skip(); return *this; } iterator operator++(int) { auto c = *this; ++*this; return c; }
        iterator &operator--() { ++o; return *this; }
        iterator &operator+=(difference_type n) { if constexpr (single) { if (s->policy() == deletion_policy::swap_and_pop) { o -= n; return *this; } } for (; n > 0; --n) ++*this; return *this; }
        iterator operator+(difference_type n) const { auto c = *this; c += n; return c; }
        template<bool B = single, typename = std::enable_if_t<B>> difference_type operator-(const iterator &r) const { return r.o - o; }
        template<bool B = single, typename = std::enable_if_t<B>> reference operator[](difference_type n) const { return s->data()[o - n - 1]; }
        template<bool B = single, typename = std::enable_if_t<B>> bool operator<(const iterator &r) const { return o > r.o; }
        reference operator*() const { return s->data()[o - 1]; } pointer operator->() const { return &**this; }
        bool operator==(const iterator &r) const { return o == r.o; } bool operator!=(const iterator &r) const { return o != r.o; }
    };
    using entity_type = entity; using size_type = std::size_t; using common_type = sparse_set;
    basic_view() = default;
    basic_view(std::tuple<Get *...> p, std::tuple<Ex *...> f) : pools(p), filter(f) { refresh(); }
    template<typename T> auto *storage() const { return std::get<internal::index_of<T, Get...>()>(pools); }
    template<std::size_t I = 0> auto *storage() const { return std::get<I>(pools); }
    template<bool B = single, typename = std::enable_if_t<B>> auto *operator->() const { return std::get<0>(pools); }
    iterator begin() const { return {*this, leading ? static_cast<std::ptrdiff_t>(leading->size()) : 0}; }
    iterator end() const { return {*this, 0}; }
    bool empty() const { return begin() == end(); }
    entity front() const { auto it = begin(); return it != end() ? *it : entity{null}; }
    std::size_t size_hint() const { return leading ? leading->size() : 0; }
    template<bool B = single, typename = std::enable_if_t<B>> std::size_t size() const { return leading ? leading->size() : 0; }
    bool contains(entity e) const { return leading && accept(e); }
    iterator find(entity e) const { auto it = begin(); while (it != end() && *it != e) ++it; return it; }
    explicit operator bool() const { return leading != nullptr; }
    template<typename T, typename... O> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(O) == 0) return std::get<internal::index_of<T, Get...>()>(pools)->get(e);
        else return std::tuple_cat(std::get<internal::index_of<T, Get...>()>(pools)->get_as_tuple(e), std::get<internal::index_of<O, Get...>()>(pools)->get_as_tuple(e)...);
    }
    auto get(entity e) const { return std::apply([&](auto *...p) { return std::tuple_cat(p->get_as_tuple(e)...); }, pools); }
    decltype(auto) operator[](entity e) const { return get(e); }
    template<typename F> void each(F f) const {
        if (!leading) return;
        for (auto pos = leading->size(); pos; --pos) {
            if (pos > leading->size()) continue;
            auto e = leading->data()[pos - 1]; if (!accept(e)) continue;
            auto comps = get(e); auto full = std::tuple_cat(std::tuple<entity>{e}, comps);
            if constexpr (internal::applicable<F &, decltype(full)>::value) std::apply(f, std::move(full)); else std::apply(f, std::move(comps));
        }
    }
    struct each_iter {
        iterator it; basic_view v;
        using value_type = decltype(std::tuple_cat(std::tuple<entity>{}, std::declval<const basic_view &>().get(entity{}))); using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        each_iter &operator++() { ++it; return *this; } each_iter operator++(int) { auto c = *this; ++*this; return c; }
        value_type operator*() const { auto e = *it; return std::tuple_cat(std::tuple<entity>{e}, v.get(e)); }
        bool operator==(const each_iter &r) const { return it == r.it; } bool operator!=(const each_iter &r) const { return it != r.it; }
    };
    struct each_range { each_iter b, e; auto begin() const { return b; } auto end() const { return e; } };
    each_range each() const { return {each_iter{begin(), *this}, each_iter{end(), *this}}; }
    template<typename... OG, typename... OE> auto operator|(const basic_view<get_t<OG...>, exclude_t<OE...>> &o) const {
        return basic_view<get_t<Get..., OG...>, exclude_t<Ex..., OE...>>(std::tuple_cat(pools, o.pools), std::tuple_cat(filter, o.filter));
    }
};

// ---------------------------------------------------------------- registry
class registry {
    std::vector<std::pair<id_type, std::unique_ptr<sparse_set>>> pools; std::unordered_map<id_type, sparse_set *> index;
    std::vector<entity> entities; std::vector<std::uint32_t> released; std::vector<bool> alive;
public:
    using entity_type = entity; using size_type = std::size_t; using version_type = std::uint16_t; using allocator_type = std::allocator<entity>; using common_type = sparse_set;
    template<typename T> using storage_for_type = std::conditional_t<std::is_const_v<T>, const sigh_storage<std::remove_const_t<T>>, sigh_storage<T>>;
    class context {
        std::map<id_type, std::shared_ptr<void>> m; std::vector<id_type> order;
    public:
        context() = default; explicit context(const allocator_type &) {}
        context(const context &) = default; context(context &&) = default; context &operator=(const context &) = default; context &operator=(context &&) = default;
        template<typename T, typename... A> T &emplace_as(id_type id, A &&...a) {
            auto it = m.find(id); if (it != m.end()) return *static_cast<T *>(it->second.get());
            std::shared_ptr<T> p; if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) p.reset(new T{std::forward<A>(a)...}); else p.reset(new T(std::forward<A>(a)...));
            m[id] = p; return *p;
        }
        template<typename T, typename... A> T &emplace(A &&...a) { return emplace_as<T>(type_id<T>().hash(), std::forward<A>(a)...); }
        template<typename T> std::decay_t<T> &insert_or_assign(T &&v) { using D = std::decay_t<T>; auto p = std::make_shared<D>(std::forward<T>(v)); m[type_id<D>().hash()] = p; return *p; }
        template<typename T> bool erase(id_type id = type_id<T>().hash()) { auto it = m.find(id); if (it == m.end()) return false; auto p = std::move(it->second); m.erase(it); return true; }
        template<typename T> T &get(id_type id = type_id<T>().hash()) { auto it = m.find(id); MINIENTT_ASSERT(it != m.end(), "invalid context variable"); return *static_cast<T *>(it->second.get()); }
        template<typename T> const T &get(id_type id = type_id<T>().hash()) const { auto it = m.find(id); MINIENTT_ASSERT(it != m.end(), "invalid context variable"); return *static_cast<const T *>(it->second.get()); }
        template<typename T> std::remove_const_t<T> *find(id_type id = type_id<T>().hash()) { auto it = m.find(id); return it == m.end() ? nullptr : static_cast<std::remove_const_t<T> *>(it->second.get()); }
        template<typename T> const T *find(id_type id = type_id<T>().hash()) const { auto it = m.find(id); return it == m.end() ? nullptr : static_cast<const T *>(it->second.get()); }
        template<typename T> bool contains(id_type id = type_id<T>().hash()) const { return m.count(id) != 0; }
    };
private:
    context vars;
    template<typename T> sigh_storage<T> &assure() {
        static_assert(std::is_same_v<T, std::decay_t<T>>); auto id = type_id<T>().hash(); auto it = index.find(id);
        if (it != index.end()) return static_cast<sigh_storage<T> &>(*it->second);
        auto p = std::make_unique<sigh_storage<T>>(*this); auto &r = *p; pools.emplace_back(id, std::move(p)); index[id] = &r; return r;
    }
    template<typename T> const sigh_storage<T> *assure() const { auto it = index.find(type_id<T>().hash()); return it == index.end() ? nullptr : static_cast<const sigh_storage<T> *>(it->second); }
public:
    registry() = default; registry(const registry &) = delete; registry &operator=(const registry &) = delete;
    ~registry() = default;
    context &ctx() { return vars; } const context &ctx() const { return vars; }
    template<typename T> storage_for_type<T> &storage() { return assure<std::remove_const_t<T>>(); }
    template<typename T> const storage_for_type<T> *storage() const { return assure<std::remove_const_t<T>>(); }
    auto storage() { struct range { decltype(pools) *p; struct it { decltype(pools.begin()) i; std::pair<id_type, sparse_set &> operator*() const { return {i->first, *i->second}; } it &operator++() { ++i; return *this; } bool operator!=(const it &o) const { return i != o.i; } }; it begin() { return {p->begin()}; } it end() { return {p->end()}; } }; return range{&pools}; }
    bool valid(entity e) const { auto i = to_entity(e); return i < entities.size() && alive[i] && entities[i] == e; }
    version_type current(entity e) const { auto i = to_entity(e); return i < entities.size() ? to_version(entities[i]) : to_version(entity{null}); }
    std::size_t alive_count() const { return static_cast<std::size_t>(std::count(alive.begin(), alive.end(), true)); }
    template<typename F> void each_entity(F f) const { for (std::size_t i = 0; i < entities.size(); ++i) if (alive[i]) f(entities[i]); }
    entity create() {
        if (!released.empty()) { auto i = released.back(); released.pop_back(); alive[i] = true; return entities[i]; }
        MINIENTT_ASSERT(entities.size() < entt_traits<entity>::entity_mask, "too many entities");
        auto e = entt_traits<entity>::construct(static_cast<std::uint32_t>(entities.size()), 0); entities.push_back(e); alive.push_back(true); return e;
    }
    template<typename It> void create(It first, It last) { for (; first != last; ++first) *first = create(); }
    version_type destroy(entity e) {
        MINIENTT_ASSERT(valid(e), "invalid entity"); for (auto pos = pools.size(); pos; --pos) pools[pos - 1].second->remove(e);
        MINIENTT_ASSERT(valid(e), "entity destroyed twice"); auto i = to_entity(e); entities[i] = entt_traits<entity>::next(e); alive[i] = false; released.push_back(i); return to_version(entities[i]);
    }
    template<typename It> void destroy(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) destroy(e); }
    template<typename T, typename... A> decltype(auto) emplace(const entity e, A &&...a) { MINIENTT_ASSERT(valid(e), "invalid entity"); return assure<T>().emplace(e, std::forward<A>(a)...); }
    template<typename T, typename It> void insert(It first, It last, const T &v = {}) { assure<T>().insert(first, last, v); }
    template<typename T, typename... A> decltype(auto) emplace_or_replace(const entity e, A &&...a) { if (auto &s = assure<T>(); s.contains(e)) return replace<T>(e, std::forward<A>(a)...); else { MINIENTT_ASSERT(valid(e), "invalid entity"); return s.emplace(e, std::forward<A>(a)...); } }
    template<typename T, typename... F> decltype(auto) patch(const entity e, F &&...f) { MINIENTT_ASSERT(valid(e), "invalid entity"); return assure<T>().patch(e, std::forward<F>(f)...); }
    template<typename T, typename... A> decltype(auto) replace(const entity e, A &&...a) {
        if constexpr (std::is_empty_v<T>) return patch<T>(e); else if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) return patch<T>(e, [&](auto &v) { v = T{std::forward<A>(a)...}; }); else return patch<T>(e, [&](auto &v) { v = T(std::forward<A>(a)...); });
    }
    template<typename T, typename... O> std::size_t remove(const entity e) { return static_cast<std::size_t>(assure<T>().remove(e)) + (std::size_t{0} + ... + static_cast<std::size_t>(assure<O>().remove(e))); }
    template<typename T, typename... O, typename It> std::size_t remove(It first, It last) { std::vector<entity> v(first, last); std::size_t n = 0; for (auto e : v) n += remove<T, O...>(e); return n; }
    template<typename T, typename... O> void erase(const entity e) { MINIENTT_ASSERT(valid(e), "invalid entity"); assure<T>().erase(e); (assure<O>().erase(e), ...); }
    template<typename T, typename... O, typename It> void erase(It first, It last) { std::vector<entity> v(first, last); for (auto e : v) erase<T, O...>(e); }
    template<typename... T> bool all_of([[maybe_unused]] const entity e) const { return ((assure<std::remove_const_t<T>>() && assure<std::remove_const_t<T>>()->contains(e)) && ...); }
    template<typename... T> bool any_of([[maybe_unused]] const entity e) const { return ((assure<std::remove_const_t<T>>() && assure<std::remove_const_t<T>>()->contains(e)) || ...); }
    template<typename... T> decltype(auto) get([[maybe_unused]] const entity e) const { if constexpr (sizeof...(T) == 1u) { auto *p = (assure<std::remove_const_t<T>>(), ...); MINIENTT_ASSERT(p, "storage not available"); return (p->get(e)); } else return std::forward_as_tuple(get<T>(e)...); }
    template<typename... T> decltype(auto) get([[maybe_unused]] const entity e) { if constexpr (sizeof...(T) == 1u) return (static_cast<storage_for_type<T> &>(assure<std::remove_const_t<T>>()).get(e), ...); else return std::forward_as_tuple(get<T>(e)...); }
    template<typename T, typename... A> decltype(auto) get_or_emplace(const entity e, A &&...a) { if (auto &s = assure<T>(); s.contains(e)) return s.get(e); else return s.emplace(e, std::forward<A>(a)...); }
    template<typename... T> auto try_get([[maybe_unused]] const entity e) const { if constexpr (sizeof...(T) == 1u) { auto *p = (assure<std::remove_const_t<T>>(), ...); return p && p->contains(e) ? std::addressof(p->get(e)) : nullptr; } else return std::make_tuple(try_get<T>(e)...); }
    template<typename... T> auto try_get([[maybe_unused]] const entity e) { if constexpr (sizeof...(T) == 1u) return (try_get_one<T>(e), ...); else return std::make_tuple(try_get<T>(e)...); }
    template<typename T> T *try_get_one(const entity e) { auto &s = assure<std::remove_const_t<T>>(); return s.contains(e) ? std::addressof(s.get(e)) : nullptr; }
    template<typename... T> void clear() {
        if constexpr (sizeof...(T) == 0u) { for (auto pos = pools.size(); pos; --pos) pools[pos - 1].second->clear(); for (std::size_t i = 0; i < entities.size(); ++i) if (alive[i]) destroy(entities[i]); }
        else (assure<T>().clear(), ...);
    }
    bool orphan(entity e) const { for (auto &p : pools) if (p.second->contains(e)) return false; return true; }
    template<typename T> auto on_construct() { return assure<T>().on_construct(); }
    template<typename T> auto on_update() { return assure<T>().on_update(); }
    template<typename T> auto on_destroy() { return assure<T>().on_destroy(); }
    template<typename T, typename... O, typename... E> auto view(exclude_t<E...> = exclude_t<>{}) {
        return basic_view<get_t<storage_for_type<T>, storage_for_type<O>...>, exclude_t<storage_for_type<E>...>>({&assure<std::remove_const_t<T>>(), &assure<std::remove_const_t<O>>()...}, {&assure<std::remove_const_t<E>>()...});
    }
    template<typename T, typename... O, typename... E> auto view(exclude_t<E...> = exclude_t<>{}) const {
        return basic_view<get_t<const storage_for_type<T>, const storage_for_type<O>...>, exclude_t<const storage_for_type<E>...>>({assure<std::remove_const_t<T>>(), assure<std::remove_const_t<O>>()...}, {assure<std::remove_const_t<E>>()...});
    }
};

// ---------------------------------------------------------------- reflection (subset)
struct as_ref_t {}; struct as_is_t {}; struct as_value_t {};
class meta_any; class meta_type; class meta_data; class meta_sequence_container; class meta_associative_container;
namespace internal {
struct seq_vtable { const struct type_node *value; std::size_t (*size)(void *); void *(*at)(void *, std::size_t); bool (*erase)(void *, std::size_t); };
struct map_vtable { const struct type_node *key, *mapped; std::size_t (*size)(void *); std::pair<const void *, void *> (*at)(void *, std::size_t); bool (*erase)(void *, const void *); };
struct data_node { id_type id; const type_node *(*type)(); void *(*addr)(void *); void (*assign)(void *, const void *); };
struct type_node { const type_info *info; const seq_vtable *seq{}; const map_vtable *map{}; std::vector<data_node> data; bool registered{}; };
template<typename T> struct is_seq : std::false_type {};
template<typename T, std::size_t N> struct is_seq<std::array<T, N>> : std::true_type {};
template<typename T, typename A> struct is_seq<std::vector<T, A>> : std::bool_constant<!std::is_same_v<T, bool>> {};
template<typename T> struct is_dyn : std::false_type {};
template<typename T, typename A> struct is_dyn<std::vector<T, A>> : std::true_type {};
template<typename T> struct is_map : std::false_type {};
template<typename... T> struct is_map<std::map<T...>> : std::true_type {};
template<typename... T> struct is_map<std::unordered_map<T...>> : std::true_type {};
template<typename T> type_node &node() {
    static type_node n = [] {
        type_node t{&type_id<T>()};
        if constexpr (is_seq<T>::value) {
            static const seq_vtable vt{&node<typename T::value_type>(), [](void *p) { return static_cast<T *>(p)->size(); }, [](void *p, std::size_t i) -> void * { return &(*static_cast<T *>(p))[i]; },
                [](void *p, std::size_t i) { if constexpr (is_dyn<T>::value) { auto &v = *static_cast<T *>(p); v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); return true; } else { (void)p; (void)i; return false; } }};
            t.seq = &vt;
        }
        if constexpr (is_map<T>::value) {
            static const map_vtable vt{&node<typename T::key_type>(), &node<typename T::mapped_type>(), [](void *p) { return static_cast<T *>(p)->size(); },
                [](void *p, std::size_t i) -> std::pair<const void *, void *> { auto it = static_cast<T *>(p)->begin(); std::advance(it, i); return {&it->first, &it->second}; }, [](void *p, const void *k) { return static_cast<T *>(p)->erase(*static_cast<const typename T::key_type *>(k)) != 0; }};
            t.map = &vt;
        }
        return t;
    }();
    return n;
}
inline std::map<id_type, type_node *> &known_types() { static std::map<id_type, type_node *> m; return m; }
template<typename> struct member_of; template<typename C, typename M> struct member_of<M C::*> { using owner = C; using type = M; };
}
class meta_data_range;
class meta_type {
    const internal::type_node *n{};
public:
    meta_type() = default; meta_type(const internal::type_node *p) : n(p) {}
    explicit operator bool() const { return n != nullptr; }
    bool operator==(const meta_type &o) const { return n == o.n || (n && o.n && *n->info == *o.n->info); } bool operator!=(const meta_type &o) const { return !(*this == o); }
    id_type id() const { return n->info->hash(); } const type_info &info() const { return *n->info; }
    bool is_sequence_container() const { return n->seq; } bool is_associative_container() const { return n->map; }
    inline std::vector<std::pair<id_type, meta_data>> data() const;
    const internal::type_node *node() const { return n; }
};
class meta_any {
    const internal::type_node *n{}; std::shared_ptr<void> own; void *p{};
public:
    meta_any() = default; meta_any(const internal::type_node *t, void *a) : n(t), p(a) {}
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_any>>> meta_any(T &&v) : n(&internal::node<std::decay_t<T>>()) { auto s = std::make_shared<std::decay_t<T>>(std::forward<T>(v)); p = s.get(); own = s; }
    meta_type type() const { return {n}; } void *data() const { return p; } explicit operator bool() const { return n; }
    template<typename T> T cast() const { using D = std::remove_cv_t<std::remove_reference_t<T>>; MINIENTT_ASSERT(n && *n->info == type_id<D>(), "invalid meta cast"); return *static_cast<D *>(p); }
    template<typename T> T cast() { using D = std::remove_cv_t<std::remove_reference_t<T>>; MINIENTT_ASSERT(n && *n->info == type_id<D>(), "invalid meta cast"); return *static_cast<D *>(p); }
    inline meta_sequence_container as_sequence_container() const; inline meta_associative_container as_associative_container() const;
};
class meta_handle { void *p{}; public: template<typename T> meta_handle(T &v) { if constexpr (std::is_same_v<std::remove_const_t<T>, meta_any>) p = v.data(); else p = const_cast<void *>(static_cast<const void *>(&v)); } void *data() const { return p; } };
class meta_data {
    const internal::data_node *d{};
public:
    meta_data(const internal::data_node *x = nullptr) : d(x) {}
    meta_type type() const { return {d->type()}; } meta_any get(meta_handle h) const { return {d->type(), d->addr(h.data())}; }
    template<typename T> bool set(meta_handle h, T &&v) const { if (*d->type()->info != type_id<T>()) return false; d->assign(h.data(), &v); return true; }
};
inline std::vector<std::pair<id_type, meta_data>> meta_type::data() const { std::vector<std::pair<id_type, meta_data>> r; for (auto &d : n->data) r.emplace_back(d.id, meta_data{&d}); return r; }
class meta_sequence_container {
    const internal::seq_vtable *v{}; void *p{};
public:
    struct iterator {
        const internal::seq_vtable *v{}; void *p{}; std::size_t i{};
        using value_type = meta_any; using reference = meta_any; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        meta_any operator*() const { return {v->value, v->at(p, i)}; } iterator &operator++() { ++i; return *this; } iterator operator++(int) { auto c = *this; ++i; return c; }
        bool operator==(const iterator &o) const { return i == o.i; } bool operator!=(const iterator &o) const { return i != o.i; } explicit operator bool() const { return v; }
    };
    meta_sequence_container() = default; meta_sequence_container(const internal::seq_vtable *vt, void *a) : v(vt), p(a) {}
    meta_type value_type() const { return {v->value}; } std::size_t size() const { return v->size(p); } meta_any operator[](std::size_t i) { return {v->value, v->at(p, i)}; }
    iterator begin() { return {v, p, 0}; } iterator end() { return {v, p, size()}; }
    iterator erase(iterator it) { if (v->erase(p, it.i)) return it; return {}; } explicit operator bool() const { return v; }
};
class meta_associative_container {
    const internal::map_vtable *v{}; void *p{};
public:
    struct iterator { const internal::map_vtable *v{}; void *p{}; std::size_t i{}; std::pair<meta_any, meta_any> operator*() const { auto e = v->at(p, i); return {meta_any{v->key, const_cast<void *>(e.first)}, meta_any{v->mapped, e.second}}; } iterator &operator++() { ++i; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator==(const iterator &o) const { return i == o.i; } };
    meta_associative_container() = default; meta_associative_container(const internal::map_vtable *vt, void *a) : v(vt), p(a) {}
    meta_type key_type() const { return {v->key}; } meta_type mapped_type() const { return {v->mapped}; } std::size_t size() const { return v->size(p); }
    iterator begin() { return {v, p, 0}; } iterator end() { return {v, p, size()}; } std::size_t erase(const meta_any &k) { return v->erase(p, k.data()); } explicit operator bool() const { return v; }
};
inline meta_sequence_container meta_any::as_sequence_container() const { return {n->seq, p}; }
inline meta_associative_container meta_any::as_associative_container() const { return {n->map, p}; }
template<typename T> meta_type resolve() { return {&internal::node<std::remove_cv_t<std::remove_reference_t<T>>>()}; }
inline meta_type resolve(id_type id) { auto &m = internal::known_types(); auto it = m.find(id); return {it == m.end() ? nullptr : it->second}; }
template<typename T> class meta_factory {
public:
    meta_factory() { auto &n = internal::node<T>(); n.registered = true; internal::known_types()[n.info->hash()] = &n; }
    template<auto D, typename Policy = as_is_t> meta_factory &data(id_type id) {
        using M = typename internal::member_of<decltype(D)>::type; auto &n = internal::node<T>(); for (auto &d : n.data) if (d.id == id) return *this;
        n.data.push_back({id, [] { return static_cast<const internal::type_node *>(&internal::node<M>()); }, [](void *p) -> void * { return &(static_cast<T *>(p)->*D); }, [](void *p, const void *v) { static_cast<T *>(p)->*D = *static_cast<const M *>(v); }});
        return *this;
    }
};
template<typename T> meta_factory<T> meta() { return {}; }
inline void meta_reset() { for (auto &[id, n] : internal::known_types()) n->data.clear(); internal::known_types().clear(); }
}
#endif
