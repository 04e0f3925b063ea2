// The program's main() under another name.
#define main primesum_main
#include <../src/app/main.cpp>
