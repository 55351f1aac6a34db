// Thread specific storage: the library source itself, plus instantiations of the header templates.
#include "tss_pthread.cpp"
