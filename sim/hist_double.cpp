#include "hist.hpp"
void hist_double(const Plan &p)
{
#ifdef VERIF_DROPPED // does not compile against the present tree
    void hist_int(const Plan &);
    hist_int(p);
#else
    size_t live0 = rt::heap_live_blocks();
    World<double> *w = new World<double>(p);
    w->execute(live0);
#endif
}
