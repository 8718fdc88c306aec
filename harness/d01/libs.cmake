set(LIBS Display Image SDL2)
include_directories(/usr/include/SDL2)
