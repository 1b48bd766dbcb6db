#undef atomic
#undef atomic_uint
#undef atomic_int
#undef atomic_bool
#undef atomic_size_t
#undef mutex
#undef shared_mutex
