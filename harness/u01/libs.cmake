set(LIBS Util)
