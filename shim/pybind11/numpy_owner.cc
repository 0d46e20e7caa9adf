#define PYSHIM_NUMPY_OWNER
#include "pybind11/numpy.h"
static int import_it() {
    import_array1(-1);
    return 0;
}
void pybind11::pyshim_init_numpy() {
    if (import_it() != 0)
        throw error_already_set();
}
