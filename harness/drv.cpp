// Native workloads, built with ASan+UBSan.
#include "mon.h"
#include "flame/base.h"
#include "alloc.h"
#include "c01.h"
#include "c02.h"
#include "c05.h"
#include "c22.h"
#include "c21.h"
#include "c12.h"

int main(int argc, char** argv)
{
    registerLinear();
    registerMoment();
    Mode modes[] = {
        {"c01", c01::setup, c01::run, 0},
        {"c02n", 0, c02::run, 0},
        {"c05", 0, c05::run, 0},
        {"c22", c22::setup, c22::run, 0},
        {"c21", c21::setup, c21::run, 0},
        {"c12n", c12::setup, c12::run12, 0},
        {"c06n", 0, c12::run06, 0},
        {0, 0, 0, 0},
    };
    if (argc > 7) c12::PREP = argv[7];
    int rc = drive(argc, argv, modes);
    Machine::registeryCleanup();
    return rc;
}
