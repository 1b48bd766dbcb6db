#define atomic vp_atomic
#define atomic_uint vp_atomic_uint
#define atomic_int vp_atomic_int
#define atomic_bool vp_atomic_bool
#define atomic_size_t vp_atomic_size_t
#define mutex vp_mutex
#define shared_mutex vp_shared_mutex
