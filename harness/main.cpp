#include "nmc.h"
int main(int argc, char** argv) {
    return nmc::run_main(argc, argv);
}
