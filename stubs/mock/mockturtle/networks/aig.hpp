#pragma once
namespace mockturtle { class aig_network {}; }
