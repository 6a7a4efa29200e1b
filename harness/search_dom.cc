// One variant of the graph domain with every search algorithm.
// VCOST, VINPLACE and VNAME are given on the command line.
#include "gdom.hpp"

Searcher *VNAME(const std::vector<std::string> &args) {
	return new SearcherT<GDom<VCOST, VINPLACE>>(args);
}
