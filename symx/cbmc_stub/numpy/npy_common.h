typedef short npy_int16; typedef unsigned short npy_uint16; typedef float npy_float32;
typedef int npy_int32; typedef unsigned npy_uint32; typedef double npy_float64; typedef struct {double r,i;} npy_complex128; typedef long npy_intp;
