set(LIBS Util Math)
