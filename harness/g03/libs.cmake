set(LIBS Image)
