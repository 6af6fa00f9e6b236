SRC="$(ls src/xmss-alt/*.c) $(ls src/qrl/*.cpp | grep -v 'misc.cpp\|wordlist.cpp') src/shasha/shasha.cpp"
