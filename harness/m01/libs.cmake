set(LIBS Math)
