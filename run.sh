#!/bin/bash
cd /verif; export FPV_VERBOSE=1; exec timeout -k 5 ${FPV_LIM:-1000} .build/fpv/release/fpv /verif /verif/.build/h/release/deps "$@" 2>&1
