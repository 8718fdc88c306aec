set(LIBS Check)
