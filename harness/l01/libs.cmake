set(LIBS Log)
