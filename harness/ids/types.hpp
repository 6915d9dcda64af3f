// Component types seen by several binaries; the table is repeated, independently of the compiler, in lib/component_checks.py.
#pragma once
#include <co_ecs/co_ecs.hpp>
namespace n1 { struct a { int v; }; template<class X, class Y> struct b { int v; }; namespace n2 { struct a { int v; char c[3]; }; } }
namespace n2 { struct a { int v; double d; }; }
struct outer { struct a { int v; int w[5]; }; };
struct a { int v; };
struct alignas(64) big { int v; char c[100]; };
struct small { signed char v; };
template<class X> struct templ { int v; X* p; };
template<auto N> struct nt { int v; };
template<int N> struct many { int v; };
template<int N> struct ty;
#define TYPE(N, ...) template<> struct ty<N> { using type = __VA_ARGS__; };
TYPE(0, n1::a) TYPE(1, n2::a) TYPE(2, n1::n2::a) TYPE(3, outer::a) TYPE(4, big) TYPE(5, small) TYPE(6, templ<int>) TYPE(7, templ<unsigned>)
TYPE(8, templ<n1::a>) TYPE(9, a) TYPE(10, n1::b<n1::a, n2::a>) TYPE(11, n1::b<n2::a, n1::a>) TYPE(12, many<-1>)
// printed alike by some compilers
TYPE(13, nt<1>) TYPE(14, nt<1u>) TYPE(15, nt<short(1)>) TYPE(16, nt<1l>)
// brackets of all kinds in the name
TYPE(17, templ<int[3]>) TYPE(18, templ<int[2][4]>) TYPE(19, templ<int (*)(char)>) TYPE(20, templ<const int>)
// long names that differ in the middle, or at the end
template<int N, class X> struct nest { using type = templ<typename nest<N - 1, X>::type>; };
template<class X> struct nest<0, X> { using type = X; };
template<class X, class Y> struct pair_of { int v; };
TYPE(21, nest<60, int>::type) TYPE(22, nest<60, char>::type)
TYPE(23, pair_of<nest<60, int>::type, n1::a>) TYPE(24, pair_of<nest<60, int>::type, n2::a>)
template<int N> requires (N >= 100) struct ty<N> { using type = many<N>; };
