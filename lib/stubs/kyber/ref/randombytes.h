#pragma once
void randombytes(unsigned char *x, unsigned long long xlen);
