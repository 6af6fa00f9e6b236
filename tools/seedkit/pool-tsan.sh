SRC="$(ls src/xmss-alt/*.c) $(ls src/qrl/*.cpp) src/shasha/shasha.cpp"
SAN="-fsanitize=thread"
