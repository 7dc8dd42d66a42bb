// The backend executable for the race detector; everything is in main.cpp.
