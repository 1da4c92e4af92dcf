#include "../src/block-kind.cpp"
