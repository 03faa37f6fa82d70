#pragma once
#include <bits/c++config.h>
#include <iosfwd>
namespace std { class locale; template <class F> const F &use_facet(const locale &); template <class F> bool has_facet(const locale &); template <class C> class ctype; class ctype_base; }
