set(LIBS Display Image X11 Xext Xrandr Xrender GL -Wl,--wrap=poll)
