// Containers as elements of containers: what an element owns comes from the same simulated heap.
#ifndef SIM_NEST_HPP
#define SIM_NEST_HPP
#include "kinds2.hpp"
namespace sim {
// value v: a sequence of 1 + v % 4 numbers that starts with v; a default-made element is empty
template <class S> struct SeqVal {
    static S mk(int v) { S s; for (int i = 0; i <= v % 4; i++) s.push_back(v + i * 1000); return s; }
    static int of(const S &s) {
        int n = (int)s.size(); if (n == 0) return s.empty() ? 0 : -77771; if (n > 4) return -77772;
        int v = 0, i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) { if (i >= n) return -77773; if (i == 0) v = *it; else if (*it != v + i * 1000) return -77774; }
        return i == n && n == 1 + v % 4 ? v : -77776;
    }
};
template <class A> struct Val<dstruct::Vector<int, A> > : SeqVal<dstruct::Vector<int, A> > {};
template <class A> struct Val<dstruct::DoublyLinkedList<int, A> > : SeqVal<dstruct::DoublyLinkedList<int, A> > {};
template <class A> struct Val<dstruct::SinglyLinkedList<int, A> > : SeqVal<dstruct::SinglyLinkedList<int, A> > {};
template <dstruct::size_t N, class A> struct Val<dstruct::DoubleEndedQueue<int, N, A> > : SeqVal<dstruct::DoubleEndedQueue<int, N, A> > {};
// value v: its decimal digits, behind them up to 24 characters of padding
template <class A> struct Val<dstruct::BasicString<char, A> > {
    typedef dstruct::BasicString<char, A> S;
    static S mk(int v) { char b[48]; int n = 0; u32 x = (u32)v; char d[12]; int k = 0; do { d[k++] = (char)('0' + x % 10); x /= 10; } while (x); while (k) b[n++] = d[--k]; for (int i = v % 25; i > 0; i--) b[n++] = '-'; b[n] = 0; return S(b); }
    static int of(const S &s) {
        int n = (int)s.size(), v = 0, i = 0; if (n == 0) return s.empty() ? 0 : -77771; if (n > 40) return -77772;
        for (; i < n && s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0');
        int pad = n - i; for (; i < n; i++) if (s[i] != '-') return -77774;
        return pad == v % 25 && s.c_str()[n] == 0 ? v : -77776;
    }
};
template <class T> struct ByVal { bool operator()(const T &a, const T &b) const { CallbackScope c; return vo(a) < vo(b); } };
template <class T> struct ByValDown { bool operator()(const T &a, const T &b) const { CallbackScope c; return vo(b) < vo(a); } };
template <class T> struct CmpDir<ByValDown<T>, T> { static int of(int) { return -1; } static ByValDown<T> mk(int) { return ByValDown<T>(); } };
}
#endif
