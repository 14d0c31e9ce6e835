#pragma once
#include <sx_streams.h>
namespace __gnu_cxx { template <typename C, typename T = std::char_traits<C>> class stdio_filebuf : public std::basic_filebuf<C, T> {
public: stdio_filebuf() {} stdio_filebuf(int f, int, size_t = 0) { this->fd = f; } stdio_filebuf(FILE*, int, size_t = 0) {} int fd_() { return this->fd; } }; }
