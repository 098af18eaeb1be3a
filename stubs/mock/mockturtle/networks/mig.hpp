#pragma once
namespace mockturtle { class mig_network {}; }
