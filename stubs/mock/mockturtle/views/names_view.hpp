#pragma once
namespace mockturtle { template <class N> class names_view : public N {}; }
