// Minimal stand-in for gch::small_vector (the real header is not installed in
// this sandbox).  Contiguous storage, a small inline buffer (so short vectors
// do not allocate, as with the real class), geometric growth, strong guarantee
// on growth of nothrow-movable element types.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <ranges>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace gch {

template <typename T>
inline constexpr unsigned default_inline =
    sizeof(T) <= 40 ? static_cast<unsigned>(40 / sizeof(T)) : 0u;

template <typename T, unsigned N = (default_inline<T> == 0 ? 0 : default_inline<T>)>
class small_vector {
 public:
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;
  using pointer = T*;
  using const_pointer = const T*;

  // Class-type iterators, as in the real library.
  template <bool Const>
  class iter {
   public:
    using iterator_category = std::random_access_iterator_tag;
    using iterator_concept = std::contiguous_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = std::conditional_t<Const, const T*, T*>;
    using reference = std::conditional_t<Const, const T&, T&>;
    using element_type = std::conditional_t<Const, const T, T>;
    constexpr iter() noexcept = default;
    constexpr explicit iter(pointer q) noexcept : p{q} {}
    template <bool C2>
      requires(Const && !C2)
    constexpr iter(const iter<C2>& o) noexcept : p{o.operator->()} {}
    constexpr reference operator*() const noexcept { return *p; }
    constexpr pointer operator->() const noexcept { return p; }
    constexpr reference operator[](difference_type n) const noexcept { return p[n]; }
    constexpr iter& operator++() noexcept { ++p; return *this; }
    constexpr iter operator++(int) noexcept { auto t = *this; ++p; return t; }
    constexpr iter& operator--() noexcept { --p; return *this; }
    constexpr iter operator--(int) noexcept { auto t = *this; --p; return t; }
    constexpr iter& operator+=(difference_type n) noexcept { p += n; return *this; }
    constexpr iter& operator-=(difference_type n) noexcept { p -= n; return *this; }
    friend constexpr iter operator+(iter a, difference_type n) noexcept { return iter{a.p + n}; }
    friend constexpr iter operator+(difference_type n, iter a) noexcept { return iter{a.p + n}; }
    friend constexpr iter operator-(iter a, difference_type n) noexcept { return iter{a.p - n}; }
    friend constexpr difference_type operator-(const iter& a, const iter& b) noexcept { return a.p - b.p; }
    friend constexpr bool operator==(const iter& a, const iter& b) noexcept { return a.p == b.p; }
    friend constexpr auto operator<=>(const iter& a, const iter& b) noexcept { return a.p <=> b.p; }

   private:
    pointer p = nullptr;
  };
  using iterator = iter<false>;
  using const_iterator = iter<true>;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;

  small_vector() noexcept { reset(); }
  explicit small_vector(size_type n) : small_vector{} {
    guard g{this};
    resize(n);
    g.dismiss();
  }
  small_vector(size_type n, const T& v) : small_vector{} {
    guard g{this};
    reserve(n);
    for (size_type i = 0; i < n; ++i) emplace_back(v);
    g.dismiss();
  }
  template <std::input_iterator It>
  small_vector(It first, It last) : small_vector{} {
    guard g{this};
    if constexpr (std::forward_iterator<It>)
      reserve(static_cast<size_type>(std::distance(first, last)));
    for (; first != last; ++first) emplace_back(*first);
    g.dismiss();
  }
  small_vector(std::initializer_list<T> il)
      : small_vector(il.begin(), il.end()) {}
  small_vector(const small_vector& o) : small_vector(o.begin(), o.end()) {}
  small_vector(small_vector&& o) noexcept(std::is_nothrow_move_constructible_v<T>)
      : small_vector{} {
    take(o);
  }
  small_vector& operator=(const small_vector& o) {
    if (this != &o) {
      small_vector t{o};
      clear_and_free();
      take(t);
    }
    return *this;
  }
  small_vector& operator=(small_vector&& o) noexcept(
      std::is_nothrow_move_constructible_v<T>) {
    if (this != &o) {
      clear_and_free();
      take(o);
    }
    return *this;
  }
  small_vector& operator=(std::initializer_list<T> il) {
    small_vector t{il};
    clear_and_free();
    take(t);
    return *this;
  }
  ~small_vector() { clear_and_free(); }

  void swap(small_vector& o) {
    small_vector t{std::move(o)};
    o = std::move(*this);
    *this = std::move(t);
  }
  friend void swap(small_vector& a, small_vector& b) { a.swap(b); }

  void assign(size_type n, const T& v) {
    small_vector t(n, v);
    *this = std::move(t);
  }
  template <std::input_iterator It>
  void assign(It f, It l) {
    small_vector t(f, l);
    *this = std::move(t);
  }

  iterator begin() noexcept { return iterator{m_p}; }
  iterator end() noexcept { return iterator{m_p + m_n}; }
  const_iterator begin() const noexcept { return const_iterator{m_p}; }
  const_iterator end() const noexcept { return const_iterator{m_p + m_n}; }
  const_iterator cbegin() const noexcept { return begin(); }
  const_iterator cend() const noexcept { return end(); }
  reverse_iterator rbegin() noexcept { return reverse_iterator{end()}; }
  reverse_iterator rend() noexcept { return reverse_iterator{begin()}; }
  const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator{end()}; }
  const_reverse_iterator rend() const noexcept { return const_reverse_iterator{begin()}; }
  const_reverse_iterator crbegin() const noexcept { return rbegin(); }
  const_reverse_iterator crend() const noexcept { return rend(); }

  T& operator[](size_type i) noexcept { return m_p[i]; }
  const T& operator[](size_type i) const noexcept { return m_p[i]; }
  T& at(size_type i) {
    if (i >= m_n) throw std::out_of_range{"small_vector::at"};
    return m_p[i];
  }
  const T& at(size_type i) const {
    if (i >= m_n) throw std::out_of_range{"small_vector::at"};
    return m_p[i];
  }
  T& front() noexcept { return m_p[0]; }
  const T& front() const noexcept { return m_p[0]; }
  T& back() noexcept { return m_p[m_n - 1]; }
  const T& back() const noexcept { return m_p[m_n - 1]; }
  T* data() noexcept { return m_p; }
  const T* data() const noexcept { return m_p; }
  size_type size() const noexcept { return m_n; }
  size_type capacity() const noexcept { return m_cap; }
  size_type max_size() const noexcept {
    return std::numeric_limits<std::ptrdiff_t>::max() / sizeof(T);
  }
  [[nodiscard]] bool empty() const noexcept { return m_n == 0; }
  static constexpr size_type inline_capacity() noexcept { return N; }

  void reserve(size_type n) {
    if (n > m_cap) regrow(n);
  }
  void shrink_to_fit() {}
  void clear() noexcept {
    std::destroy_n(m_p, m_n);
    m_n = 0;
  }
  template <typename... A>
  reference emplace_back(A&&... a) {
    if (m_n == m_cap) {
      size_type ncap = std::max<size_type>(m_cap * 2, m_n + 1);
      T* np = alloc(ncap);
      try {
        ::new (static_cast<void*>(np + m_n)) T(std::forward<A>(a)...);
      } catch (...) {
        ::operator delete(static_cast<void*>(np));
        throw;
      }
      adopt(np, ncap);
    } else {
      ::new (static_cast<void*>(m_p + m_n)) T(std::forward<A>(a)...);
    }
    return m_p[m_n++];
  }
  void push_back(const T& v) { emplace_back(v); }
  void push_back(T&& v) { emplace_back(std::move(v)); }
  void pop_back() noexcept {
    --m_n;
    std::destroy_at(m_p + m_n);
  }
  void resize(size_type n) {
    if (n < m_n) {
      std::destroy_n(m_p + n, m_n - n);
      m_n = n;
    } else {
      reserve(n);
      while (m_n < n) emplace_back();
    }
  }
  void resize(size_type n, const T& v) {
    if (n < m_n) {
      std::destroy_n(m_p + n, m_n - n);
      m_n = n;
    } else {
      reserve(n);
      while (m_n < n) emplace_back(v);
    }
  }
  iterator erase(const_iterator pos) { return erase(pos, pos + 1); }
  iterator erase(const_iterator f, const_iterator l) {
    size_type a = f - cbegin(), b = l - cbegin();
    if (a != b) {
      std::move(m_p + b, m_p + m_n, m_p + a);
      std::destroy_n(m_p + (m_n - (b - a)), b - a);
      m_n -= b - a;
    }
    return begin() + static_cast<difference_type>(a);
  }
  template <typename... A>
  iterator emplace(const_iterator pos, A&&... a) {
    size_type i = pos - cbegin();
    emplace_back(std::forward<A>(a)...);
    std::rotate(m_p + i, m_p + m_n - 1, m_p + m_n);
    return begin() + static_cast<difference_type>(i);
  }
  iterator insert(const_iterator pos, const T& v) { return emplace(pos, v); }
  iterator insert(const_iterator pos, T&& v) { return emplace(pos, std::move(v)); }
  template <std::input_iterator It>
  iterator insert(const_iterator pos, It f, It l) {
    size_type i = pos - cbegin(), old = m_n;
    for (; f != l; ++f) emplace_back(*f);
    std::rotate(m_p + i, m_p + old, m_p + m_n);
    return begin() + static_cast<difference_type>(i);
  }
  template <typename R>
  void append(R&& r) {
    for (auto&& e : r) emplace_back(std::forward<decltype(e)>(e));
  }

  friend bool operator==(const small_vector& a, const small_vector& b) {
    return std::equal(a.begin(), a.end(), b.begin(), b.end());
  }
  template <typename P>
  friend size_type erase_if(small_vector& v, P pred) {
    auto it = std::remove_if(v.m_p, v.m_p + v.m_n, pred);
    size_type k = (v.m_p + v.m_n) - it;
    std::destroy_n(it, k);
    v.m_n -= k;
    return k;
  }
  template <typename U>
  friend size_type erase(small_vector& v, const U& val) {
    return erase_if(v, [&](const T& e) { return e == val; });
  }

 private:
  T* m_p;
  size_type m_n;
  size_type m_cap;
  alignas(N > 0 ? alignof(T) : 1) unsigned char m_inline[N > 0 ? N * sizeof(T) : 1];

  struct guard {
    small_vector* v;
    void dismiss() noexcept { v = nullptr; }
    ~guard() { if (v) v->clear_and_free(); }
  };

  T* inl() noexcept { return reinterpret_cast<T*>(m_inline); }
  bool is_inl() noexcept { return m_p == inl(); }
  void reset() noexcept {
    m_p = inl();
    m_n = 0;
    m_cap = N;
  }
  void clear_and_free() noexcept {
    clear();
    if (!is_inl()) ::operator delete(static_cast<void*>(m_p));
    reset();
  }
  static T* alloc(size_type n) {
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  static void relocate(T* from, size_type n, T* to) {
    if constexpr (std::is_nothrow_move_constructible_v<T> ||
                  !std::is_copy_constructible_v<T>) {
      std::uninitialized_move_n(from, n, to);
    } else {
      std::uninitialized_copy_n(from, n, to);
    }
  }
  void adopt(T* np, size_type ncap) {
    relocate(m_p, m_n, np);
    std::destroy_n(m_p, m_n);
    if (!is_inl()) ::operator delete(static_cast<void*>(m_p));
    m_p = np;
    m_cap = ncap;
  }
  void regrow(size_type n) {
    T* np = alloc(n);
    adopt(np, n);
  }
  void take(small_vector& o) {
    if (o.is_inl()) {
      if constexpr (N > 0) {
        relocate(o.m_p, o.m_n, inl());
        m_n = o.m_n;
        o.clear();
      }
    } else {
      m_p = o.m_p;
      m_n = o.m_n;
      m_cap = o.m_cap;
      o.reset();
    }
  }
};

}  // namespace gch
