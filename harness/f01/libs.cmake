set(LIBS Font Image freetype)
find_package(Freetype REQUIRED)
set_source_files_properties("${DIR}/main.cpp" "${DIR}/fonts.cpp" PROPERTIES
  COMPILE_DEFINITIONS "FONT_DIR=\"${VERIF_REPO}/src/archon/font\""
  INCLUDE_DIRECTORIES "${FREETYPE_INCLUDE_DIRS}")
