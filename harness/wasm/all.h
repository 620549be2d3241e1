// the headers which need no C++ library
#define W_cdt 1
#define W_clock 1
#define W_dictionary 1
#define W_io 1
#define W_lziii 1
#define W_math 1
#define W_nameof 1
#define W_pool 1
#define W_sort 1
#define W_zorder 1
