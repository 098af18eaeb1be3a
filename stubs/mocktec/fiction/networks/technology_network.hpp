// stand-in: the logic network type is only named by the library's type aliases
#ifndef FICTION_TECHNOLOGY_NETWORK_HPP
#define FICTION_TECHNOLOGY_NETWORK_HPP
namespace fiction { class technology_network {}; }
#endif
