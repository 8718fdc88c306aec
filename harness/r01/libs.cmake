set(LIBS Render Display Util Math)
