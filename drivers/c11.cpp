// C11: address iterators (see iter.hpp)
#include "iter.hpp"
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    if (cmds[0][0] == "mix") { Mixed<true> m; m.run(cmds, rec); }
    else if (is4arg(cmds[0][1])) { Both<ipv4_network, true> m; m.run(cmds, rec); } else { Both<ipv6_network, true> m; m.run(cmds, rec); }
}
