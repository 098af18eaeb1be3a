#pragma once
namespace mockturtle { class xag_network {}; }
