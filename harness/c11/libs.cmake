set(LIBS Core)
