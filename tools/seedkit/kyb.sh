SRC="$(ls src/kyber/*.cpp)"
