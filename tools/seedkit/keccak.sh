SRC="src/xmss-alt/fips202.c"
