set(LIBS Image png)
