#include <hdf5.h>
void h5setinfo(void *p, int isdset) { ((H5G_stat_t *)p)->type = isdset ? H5G_DATASET : H5G_GROUP; }
