// the search for block borders over an abstract set of numbers: std::set<size_t>
// is replaced by a membership array and assumed contracts of its searching
// operations, std::sort on a vector of numbers by its assumed contract
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <set>
#include <vector>
extern "C" {
size_t* vc_set_new();                           // no member
size_t vc_set_from(size_t const*, size_t x);    // smallest member from x on, or -1
size_t vc_set_below(size_t const*, size_t x);   // largest member below x
size_t vc_set_size(size_t const*, size_t n);    // the members, n of them, can be enumerated
void vc_set_there(size_t x);                    // an iterator that is dereferenced is not the end
void vc_sort(size_t*, size_t n);
void vc_sizes_are(size_t const*, size_t n);
}
namespace std {
template <> class set<size_t> {
    size_t *m_, n_;
    size_t put(size_t x) { size_t was = m_[x]; n_ += 1 - was; m_[x] = 1; return 1 - was; }
public:
    typedef size_t key_type; typedef size_t value_type; typedef size_t size_type; typedef ptrdiff_t difference_type;
    struct iterator {
        typedef bidirectional_iterator_tag iterator_category; typedef size_t value_type; typedef ptrdiff_t difference_type; typedef size_t const* pointer; typedef size_t const& reference;
        size_t const* m; size_t at;
        size_t const& operator*() const { vc_set_there(at); return at; }
        iterator& operator++() { vc_set_there(at); at = vc_set_from(m, at + 1); return *this; }
        iterator operator++(int) { iterator t(*this); ++*this; return t; }
        iterator& operator--() { at = vc_set_below(m, at); return *this; }
        iterator operator--(int) { iterator t(*this); --*this; return t; }
        bool operator==(iterator const& o) const { return at == o.at; }
        bool operator!=(iterator const& o) const { return at != o.at; }
    };
    typedef iterator const_iterator;
    typedef std::reverse_iterator<iterator> reverse_iterator; typedef reverse_iterator const_reverse_iterator;
    set() : m_(vc_set_new()), n_(0) {}
    set(initializer_list<size_t> l) : m_(vc_set_new()), n_(0) { size_t const* p = l.begin(); size_t n = l.size(); if (n > 0) put(p[0]); if (n > 1) put(p[1]); if (n > 2) vc_set_there(-1); }
    set(set const&) = delete;
    iterator begin() const { return {m_, vc_set_from(m_, 0)}; }
    iterator end() const { return {m_, size_t(-1)}; }
    iterator cbegin() const { return begin(); }
    iterator cend() const { return end(); }
    reverse_iterator rbegin() const { return reverse_iterator(end()); }
    reverse_iterator rend() const { return reverse_iterator(begin()); }
    iterator lower_bound(size_t x) const { return {m_, vc_set_from(m_, x)}; }
    iterator upper_bound(size_t x) const { return {m_, vc_set_from(m_, x + 1)}; }
    iterator find(size_t x) const { return {m_, m_[x] ? x : size_t(-1)}; }
    size_t count(size_t x) const { return m_[x]; }
    pair<iterator, bool> insert(size_t x) { bool b = put(x); return {{m_, x}, b}; }
    iterator insert(iterator, size_t x) { put(x); return {m_, x}; }
    pair<iterator, bool> emplace(size_t x) { return insert(x); }
    size_t erase(size_t x) { size_t was = m_[x]; n_ -= was; m_[x] = 0; return was; }
    iterator erase(iterator i) { vc_set_there(i.at); iterator t(i); ++t; erase(i.at); return t; }
    bool empty() const { return n_ == 0; }
    size_t size() const { return vc_set_size(m_, n_); }
};
inline set<size_t>::iterator prev(set<size_t>::iterator i, ptrdiff_t = 1) { return --i; }
inline set<size_t>::iterator next(set<size_t>::iterator i, ptrdiff_t = 1) { return ++i; }
template <class F> void sort(vector<size_t>::iterator a, vector<size_t>::iterator b, F) { vc_sort(&*a, b - a); }
template <class F> void stable_sort(vector<size_t>::iterator a, vector<size_t>::iterator b, F) { vc_sort(&*a, b - a); }
}
#include "common.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"

template <class T> static void sizes(size_t n, size_t lo, size_t hi, T* d)
{
    BlockSizeGenerator g(lo, hi);
    std::vector<T> v(d, d + n);
    std::vector<size_t> s = g.get_block_size(v);
    vc_sizes_are(s.data(), s.size());
}
ENTRY vc_border_search(size_t n, size_t lo, size_t hi, double* d) { sizes(n, lo, hi, d); }
ENTRY vc_border_search_f(size_t n, size_t lo, size_t hi, float* d) { sizes(n, lo, hi, d); }
