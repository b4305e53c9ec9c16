#pragma once
#include <cstddef>
struct splinetable { int ndim; void * data; };
struct splinetable_buffer { void * data; size_t size; void * (*mem_alloc)(size_t); void * (*mem_realloc)(void *, size_t); };
extern "C" int writesplinefitstable_mem(splinetable_buffer *, const splinetable *);
