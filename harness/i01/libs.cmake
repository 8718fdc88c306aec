set(LIBS Cli)
