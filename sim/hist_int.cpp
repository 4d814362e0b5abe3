#include "hist.hpp"
void hist_int(const Plan &p)
{
#ifdef VERIF_DROPPED // does not compile against the present tree
    void hist_double(const Plan &);
    hist_double(p);
#else
    size_t live0 = rt::heap_live_blocks();
    World<int> *w = new World<int>(p);
    w->execute(live0);
#endif
}
