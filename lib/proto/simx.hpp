// Static-capacity containers, as a user of the library without a heap would supply them.
#pragma once
#include <array>
#include <cstddef>
#include <cstring>
#include <new>
namespace simx
{
struct overflow : std::bad_alloc
{
};
template <size_t N> class text
{
    char buf[N] = {};
    size_t n    = 0;

  public:
    using value_type                       = char;
    static constexpr size_t capacity_limit = N;
    char *data() { return buf; }
    const char *data() const { return buf; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    char *begin() { return buf; }
    char *end() { return buf + n; }
    const char *begin() const { return buf; }
    const char *end() const { return buf + n; }
    void clear() { n = 0; }
    void resize(size_t m)
    {
        if (m > N) throw overflow{};
        if (m > n) memset(buf + n, 0, m - n);
        n = m;
    }
    // the rest is not needed by the library as it is; a container of this kind usually has it
    using size_type = size_t;
    using iterator = char *;
    using const_iterator = const char *;
    using reference = char &;
    using const_reference = const char &;
    static constexpr size_t npos = ~size_t(0);
    static constexpr size_t max_size() { return N; }
    static constexpr size_t capacity() { return N; }
    size_t length() const { return n; }
    void reserve(size_t m)
    {
        if (m > N) throw overflow{};
    }
    char &operator[](size_t i) { return buf[i]; }
    const char &operator[](size_t i) const { return buf[i]; }
    char &front() { return buf[0]; }
    char &back() { return buf[n - 1]; }
    const char &front() const { return buf[0]; }
    const char &back() const { return buf[n - 1]; }
    void pop_back() { n--; }
    void push_back(char c) { append(&c, 1); }
    text &operator+=(char c) { return append(&c, 1); }
    text &append(size_t m, char c)
    {
        while (m--) push_back(c);
        return *this;
    }
    text &assign(const char *p, size_t m)
    {
        clear();
        return append(p, m);
    }
    void resize(size_t m, char c)
    {
        size_t k = n;
        resize(m);
        if (m > k) memset(buf + k, c, m - k);
    }
    text &append(const char *p, size_t m)
    {
        if (m > N - n) throw overflow{};
        memcpy(buf + n, p, m);
        n += m;
        return *this;
    }
};
template <class T, size_t N> class list
{
    std::array<T, N> buf = {};
    size_t n             = 0;

  public:
    using value_type                       = T;
    static constexpr size_t capacity_limit = N;
    T *data() { return buf.data(); }
    const T *data() const { return buf.data(); }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T *begin() { return buf.data(); }
    T *end() { return buf.data() + n; }
    const T *begin() const { return buf.data(); }
    const T *end() const { return buf.data() + n; }
    void clear() { n = 0; }
    void resize(size_t m)
    {
        if (m > N) throw overflow{};
        for (size_t i = n; i < m; i++) buf[i] = T{};
        n = m;
    }
    using size_type = size_t;
    using iterator = T *;
    using const_iterator = const T *;
    using reference = T &;
    using const_reference = const T &;
    static constexpr size_t max_size() { return N; }
    static constexpr size_t capacity() { return N; }
    void reserve(size_t m)
    {
        if (m > N) throw overflow{};
    }
    T &front() { return buf[0]; }
    T &back() { return buf[n - 1]; }
    const T &front() const { return buf[0]; }
    const T &back() const { return buf[n - 1]; }
    void pop_back() { n--; }
    void assign(const T *a, const T *b)
    {
        clear();
        for (; a != b; ++a) emplace_back(*a);
    }
    T &emplace_back()
    {
        if (n >= N) throw overflow{};
        buf[n] = T{};
        return buf[n++];
    }
    T &emplace_back(T v)
    {
        auto &r = emplace_back();
        r       = v;
        return r;
    }
    void push_back(T v) { emplace_back(v); }
    T &operator[](size_t i) { return buf[i]; }
    const T &operator[](size_t i) const { return buf[i]; }
};
} // namespace simx
