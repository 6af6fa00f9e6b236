SRC="$(ls src/dilithium/*.cpp)"
