"""Calls of CMake's own commands as its documentation (3.14) describes them.

  word       one argument          word+ / word*   one to three / up to two arguments
  KEYWORD    a keyword alone       KEYWORD(...)    a keyword with what belongs to it
  [...]      may be left out       <a|b>           one of them
Neighbouring optional parts may come in any order; / keeps two such rows apart.
"""
PERM = '[PERMISSIONS(p+)]'
USAGE = '''
file: READ file var [OFFSET(n)] [LIMIT(n)] [HEX]
file: STRINGS file var [LENGTH_MAXIMUM(n)] [LENGTH_MINIMUM(n)] [LIMIT_COUNT(n)] [LIMIT_INPUT(n)] [LIMIT_OUTPUT(n)] [NEWLINE_CONSUME] [NO_HEX_CONVERSION] [REGEX(r)] [ENCODING(<UTF-8|UTF-16LE|UTF-16BE|UTF-32LE|UTF-32BE>)]
file: <MD5|SHA1|SHA224|SHA256|SHA384|SHA512|SHA3_224|SHA3_256|SHA3_384|SHA3_512> file var
file: TIMESTAMP file var [format] [UTC]
file: <WRITE|APPEND> file text+
file: <TOUCH|TOUCH_NOCREATE> file+
file: GENERATE OUTPUT(file) <INPUT(file)|CONTENT(text)> [CONDITION(c)]
file: GLOB var [LIST_DIRECTORIES(b)] [RELATIVE(p)] [CONFIGURE_DEPENDS] g*
file: GLOB_RECURSE var [FOLLOW_SYMLINKS] [LIST_DIRECTORIES(b)] [RELATIVE(p)] [CONFIGURE_DEPENDS] g*
file: RENAME old new
file: <REMOVE|REMOVE_RECURSE|MAKE_DIRECTORY> file+
file: <COPY(f+)|INSTALL f+> DESTINATION(d) [FILE_PERMISSIONS(p+)] [DIRECTORY_PERMISSIONS(p+)] [NO_SOURCE_PERMISSIONS] [USE_SOURCE_PERMISSIONS] [FILES_MATCHING] [PATTERN(p [EXCLUDE] [PERMISSIONS(p+)])] [REGEX(p [EXCLUDE] [PERMISSIONS(p+)])]
file: SIZE file var
file: READ_SYMLINK link var
file: CREATE_LINK old link [RESULT(r)] [COPY_ON_ERROR] [SYMBOLIC]
file: RELATIVE_PATH var dir file
file: <TO_CMAKE_PATH|TO_NATIVE_PATH> path var
file: <DOWNLOAD|UPLOAD> url file [INACTIVITY_TIMEOUT(s)] [LOG(v)] [SHOW_PROGRESS] [STATUS(v)] [TIMEOUT(s)] [USERPWD(u)] [HTTPHEADER(h)] [NETRC(<CMAKE_NETRC|IGNORED|OPTIONAL|REQUIRED>)] [NETRC_FILE(f)] [EXPECTED_HASH(h)] [EXPECTED_MD5(h)] [TLS_VERIFY(b)] [TLS_CAINFO(f)]
file: LOCK path [DIRECTORY] [RELEASE] [GUARD(<FUNCTION|FILE|PROCESS>)] [RESULT_VARIABLE(v)] [TIMEOUT(s)]
list: LENGTH l v
list: GET l i+ v
list: JOIN l g v
list: SUBLIST l b n v
list: FIND l x v
list: <APPEND|PREPEND|POP_BACK|POP_FRONT> l e*
list: FILTER l <INCLUDE|EXCLUDE> REGEX r
list: INSERT l i e+
list: <REMOVE_ITEM|REMOVE_AT> l e+
list: <REMOVE_DUPLICATES|REVERSE> l
list: TRANSFORM l <APPEND(v)|PREPEND(v)|TOLOWER|TOUPPER|STRIP|GENEX_STRIP|REPLACE(r s)> [<AT(i+)|FOR(a b)|FOR(a b c)|REGEX(r)>] [OUTPUT_VARIABLE(v)]
list: SORT l [COMPARE(<STRING|FILE_BASENAME>)] [CASE(<SENSITIVE|INSENSITIVE>)] [ORDER(<ASCENDING|DESCENDING>)]
set: var v+
set: var v* PARENT_SCOPE
set: var v* CACHE(type doc [FORCE])
unset: var [<CACHE|PARENT_SCOPE>]
option: var help [value]
install: TARGETS(t+) [EXPORT(n)] / [<DESTINATION(d)|<ARCHIVE|LIBRARY|RUNTIME|OBJECTS|FRAMEWORK|BUNDLE|PRIVATE_HEADER|PUBLIC_HEADER|RESOURCE>([DESTINATION(d)] [PERMISSIONS(p+)] [CONFIGURATIONS(c+)] [COMPONENT(c)] [NAMELINK_COMPONENT(c)] [OPTIONAL] [EXCLUDE_FROM_ALL] [<NAMELINK_ONLY|NAMELINK_SKIP>])>]
install: TARGETS(t+) DESTINATION(d) [PERMISSIONS(p+)] [CONFIGURATIONS(c+)] [COMPONENT(c)] [NAMELINK_COMPONENT(c)] [OPTIONAL] [EXCLUDE_FROM_ALL] [<NAMELINK_ONLY|NAMELINK_SKIP>]
install: TARGETS(t+) RUNTIME(DESTINATION(d)) LIBRARY(DESTINATION(d) [COMPONENT(c)]) ARCHIVE(DESTINATION(d)) [INCLUDES(DESTINATION d+)]
install: <FILES(f+)|PROGRAMS(f+)> <TYPE(t)|DESTINATION(d)> [PERMISSIONS(p+)] [CONFIGURATIONS(c+)] [COMPONENT(c)] [RENAME(n)] [OPTIONAL] [EXCLUDE_FROM_ALL]
install: DIRECTORY(d+) <TYPE(t)|DESTINATION(d)> [FILE_PERMISSIONS(p+)] [DIRECTORY_PERMISSIONS(p+)] [USE_SOURCE_PERMISSIONS] [OPTIONAL] [MESSAGE_NEVER] [CONFIGURATIONS(c+)] [COMPONENT(c)] [EXCLUDE_FROM_ALL] [FILES_MATCHING] [PATTERN(p [EXCLUDE] [PERMISSIONS(p+)])] [REGEX(p [EXCLUDE] [PERMISSIONS(p+)])]
install: <SCRIPT(f)|CODE(c)> [COMPONENT(c)] [EXCLUDE_FROM_ALL]
install: EXPORT(n) DESTINATION(d) [NAMESPACE(n)] [FILE(n)] [PERMISSIONS(p+)] [CONFIGURATIONS(c+)] [EXPORT_LINK_INTERFACE_LIBRARIES] [COMPONENT(c)] [EXCLUDE_FROM_ALL]
add_executable: name [WIN32] [MACOSX_BUNDLE] [EXCLUDE_FROM_ALL] s+
add_executable: name IMPORTED [GLOBAL]
add_executable: name ALIAS target
add_library: name [<STATIC|SHARED|MODULE>] / [EXCLUDE_FROM_ALL] s+
add_library: name <STATIC|SHARED|MODULE|OBJECT|UNKNOWN|INTERFACE> IMPORTED [GLOBAL]
add_library: name OBJECT s+
add_library: name ALIAS target
add_library: name INTERFACE
add_custom_command: OUTPUT(o+) COMMAND(c*) [MAIN_DEPENDENCY(d)] [DEPENDS(d+)] [BYPRODUCTS(f+)] [IMPLICIT_DEPENDS(l d)] [WORKING_DIRECTORY(d)] [COMMENT(c)] [DEPFILE(f)] [JOB_POOL(p)] [VERBATIM] [APPEND] [USES_TERMINAL] [COMMAND_EXPAND_LISTS]
add_custom_command: TARGET(t) <PRE_BUILD|PRE_LINK|POST_BUILD> COMMAND(c+) [BYPRODUCTS(f+)] [WORKING_DIRECTORY(d)] [COMMENT(c)] [VERBATIM] [USES_TERMINAL] [COMMAND_EXPAND_LISTS]
add_custom_target: name [ALL] c+ [COMMAND(c+)] [DEPENDS(d+)] [BYPRODUCTS(f+)] [WORKING_DIRECTORY(d)] [COMMENT(c)] [JOB_POOL(p)] [VERBATIM] [USES_TERMINAL] [COMMAND_EXPAND_LISTS] [SOURCES(s+)]
add_compile_options: o+
add_compile_definitions: d+
add_definitions: d+
add_dependencies: t d+
add_subdirectory: s [b] [EXCLUDE_FROM_ALL]
aux_source_directory: d v
set_target_properties: t+ PROPERTIES(k v)
set_target_properties: t+ PROPERTIES(k v k v)
set_source_files_properties: t+ PROPERTIES(k v k v)
set_tests_properties: t+ PROPERTIES(k v k v)
set_directory_properties: PROPERTIES(k v k v)
build_command: v [CONFIGURATION(c)] [TARGET(t)] [PROJECT_NAME(n)]
cmake_parse_arguments: p o k m a+
cmake_parse_arguments: PARSE_ARGV n p o k m
cmake_policy: VERSION v
cmake_policy: SET c <OLD|NEW>
cmake_policy: GET c v
cmake_policy: <PUSH|POP>
create_test_sourcelist: n d t+ [EXTRA_INCLUDE(f)] [FUNCTION(f)]
export_library_dependencies: f [APPEND]
fltk_wrap_ui: n s+
get_cmake_property: v p
get_filename_component: v f <DIRECTORY|NAME|EXT|NAME_WE|PATH> [CACHE]
get_filename_component: v f <ABSOLUTE|REALPATH> [BASE_DIR(d)] [CACHE]
get_filename_component: v f PROGRAM [PROGRAM_ARGS a] [CACHE]
get_source_file_property: v f p
get_target_property: v t p
get_test_property: t p v
include_external_msproject: n l [TYPE(t)] [GUID(g)] [PLATFORM(p)] d*
include_guard: [<DIRECTORY|GLOBAL>]
include_regular_expression: r [s]
link_directories: [<AFTER|BEFORE>] d+
link_libraries: i*
load_cache: p READ_WITH_PREFIX(p e+)
load_cache: p [EXCLUDE(e+)] [INCLUDE_INTERNALS(e+)]
load_command: n l+
math: EXPR v e [OUTPUT_FORMAT(f)]
output_required_files: a b
qt_wrap_cpp: l d s+
qt_wrap_ui: l h s f+
remove_definitions: d+
separate_arguments: v <UNIX_COMMAND|WINDOWS_COMMAND|NATIVE_COMMAND> a
separate_arguments: v
site_name: v
source_group: n [FILES(f+)] [REGULAR_EXPRESSION(r)]
source_group: TREE r [PREFIX(p)] [FILES(f+)]
source_group: n r
ctest_build: [BUILD(d)] [APPEND] [CONFIGURATION(c)] [FLAGS(f)] [PROJECT_NAME(n)] [TARGET(t)] [NUMBER_ERRORS(v)] [NUMBER_WARNINGS(v)] [RETURN_VALUE(v)] [CAPTURE_CMAKE_ERROR(v)]
ctest_configure: [BUILD(d)] [SOURCE(d)] [APPEND] [OPTIONS(o)] [RETURN_VALUE(v)] [QUIET] [CAPTURE_CMAKE_ERROR(v)]
ctest_coverage: [BUILD(d)] [APPEND] [LABELS(l+)] [RETURN_VALUE(v)] [CAPTURE_CMAKE_ERROR(v)] [QUIET]
ctest_empty_binary_directory: d
ctest_memcheck: [BUILD(d)] [APPEND] [START(n)] [END(n)] [STRIDE(n)] [EXCLUDE(r)] [INCLUDE(r)] [EXCLUDE_LABEL(r)] [INCLUDE_LABEL(r)] [EXCLUDE_FIXTURE(r)] [EXCLUDE_FIXTURE_SETUP(r)] [EXCLUDE_FIXTURE_CLEANUP(r)] [PARALLEL_LEVEL(n)] [TEST_LOAD(n)] [SCHEDULE_RANDOM(<ON|OFF>)] [STOP_TIME(t)] [RETURN_VALUE(v)] [DEFECT_COUNT(v)] [QUIET]
ctest_read_custom_files: d+
ctest_run_script: [NEW_PROCESS] s+ [RETURN_VALUE(v)]
ctest_sleep: s
ctest_sleep: a b c
ctest_start: m [s] [GROUP(g)] [QUIET] [APPEND]
ctest_submit: [PARTS(p+)] [FILES(f+)] [SUBMIT_URL(u)] [BUILD_ID(v)] [HTTPHEADER(h)] [RETRY_COUNT(n)] [RETRY_DELAY(n)] [RETURN_VALUE(v)] [CAPTURE_CMAKE_ERROR(v)] [QUIET]
ctest_test: [BUILD(d)] [APPEND] [START(n)] [END(n)] [STRIDE(n)] [EXCLUDE(r)] [INCLUDE(r)] [EXCLUDE_LABEL(r)] [INCLUDE_LABEL(r)] [EXCLUDE_FIXTURE(r)] [EXCLUDE_FIXTURE_SETUP(r)] [EXCLUDE_FIXTURE_CLEANUP(r)] [PARALLEL_LEVEL(n)] [RESOURCE_SPEC_FILE(f)] [TEST_LOAD(n)] [SCHEDULE_RANDOM(<ON|OFF>)] [STOP_TIME(t)] [RETURN_VALUE(v)] [CAPTURE_CMAKE_ERROR(v)] [QUIET]
ctest_update: [SOURCE(d)] [RETURN_VALUE(v)] [CAPTURE_CMAKE_ERROR(v)] [QUIET]
ctest_upload: FILES(f+) [QUIET] [CAPTURE_CMAKE_ERROR(v)]
target_compile_definitions: t [PUBLIC(d+)] [PRIVATE(d+)] [INTERFACE(d+)]
target_compile_features: t <PUBLIC(d+)|PRIVATE(d+)|INTERFACE(d+)>
target_compile_options: t [BEFORE] / [PUBLIC(d+)] [PRIVATE(d+)] [INTERFACE(d+)]
target_include_directories: t [SYSTEM] [BEFORE] / [PUBLIC(d+)] [PRIVATE(d+)] [INTERFACE(d+)]
target_link_libraries: t [PUBLIC(d+)] [PRIVATE(d+)] [INTERFACE(d+)]
target_link_libraries: t l+
target_sources: t [PUBLIC(d+)] [PRIVATE(d+)] [INTERFACE(d+)]
variable_watch: v [c]
build_name: v
exec_program: e [d] / [ARGS(a+)] [OUTPUT_VARIABLE(v)] [RETURN_VALUE(v)]
foreach: v i*
foreach: v RANGE(a)
foreach: v RANGE(a b)
foreach: v RANGE(a b c)
foreach: v IN [LISTS(l+)] [ITEMS(i+)]
add_test: NAME(n) COMMAND(c a+) [CONFIGURATIONS(c+)] [WORKING_DIRECTORY(d)]
cmake_host_system_information: RESULT(v) QUERY(k+)
cmake_minimum_required: VERSION(v) [FATAL_ERROR]
configure_file: i o [COPYONLY] [ESCAPE_QUOTES] [@ONLY] [NEWLINE_STYLE(s)]
enable_language: l [OPTIONAL]
execute_process: COMMAND(c+) [COMMAND(c+)] [WORKING_DIRECTORY(d)] [TIMEOUT(s)] [RESULT_VARIABLE(v)] [OUTPUT_VARIABLE(v)] [ERROR_VARIABLE(v)] [INPUT_FILE(f)] [OUTPUT_FILE(f)] [ERROR_FILE(f)] [RESULTS_VARIABLE(v)] [ENCODING(e)] [OUTPUT_QUIET] [ERROR_QUIET] [OUTPUT_STRIP_TRAILING_WHITESPACE] [ERROR_STRIP_TRAILING_WHITESPACE]
export: TARGETS(t+) [NAMESPACE(n)] [APPEND] FILE(f) [EXPORT_LINK_INTERFACE_LIBRARIES]
export: EXPORT(n) [NAMESPACE(n)] [FILE(f)]
export: PACKAGE(n)
find_file: v NAMES(n+) [HINTS(p+)] [PATHS(p+)] [PATH_SUFFIXES(s+)] [DOC(d)] [NO_DEFAULT_PATH] [NO_PACKAGE_ROOT_PATH] [NO_CMAKE_ENVIRONMENT_PATH] [NO_CMAKE_PATH] [NO_SYSTEM_ENVIRONMENT_PATH] [NO_CMAKE_SYSTEM_PATH] [<CMAKE_FIND_ROOT_PATH_BOTH|ONLY_CMAKE_FIND_ROOT_PATH|NO_CMAKE_FIND_ROOT_PATH>]
find_library: v NAMES(n+) [HINTS(p+)] [PATHS(p+)] [PATH_SUFFIXES(s+)] [DOC(d)] [NO_DEFAULT_PATH] [NO_PACKAGE_ROOT_PATH] [NO_CMAKE_ENVIRONMENT_PATH] [NO_CMAKE_PATH] [NO_SYSTEM_ENVIRONMENT_PATH] [NO_CMAKE_SYSTEM_PATH] [<CMAKE_FIND_ROOT_PATH_BOTH|ONLY_CMAKE_FIND_ROOT_PATH|NO_CMAKE_FIND_ROOT_PATH>]
find_path: v NAMES(n+) [HINTS(p+)] [PATHS(p+)] [PATH_SUFFIXES(s+)] [DOC(d)] [NO_DEFAULT_PATH] [NO_PACKAGE_ROOT_PATH] [NO_CMAKE_ENVIRONMENT_PATH] [NO_CMAKE_PATH] [NO_SYSTEM_ENVIRONMENT_PATH] [NO_CMAKE_SYSTEM_PATH] [<CMAKE_FIND_ROOT_PATH_BOTH|ONLY_CMAKE_FIND_ROOT_PATH|NO_CMAKE_FIND_ROOT_PATH>]
find_program: v NAMES(n+) [HINTS(p+)] [PATHS(p+)] [PATH_SUFFIXES(s+)] [DOC(d)] [NO_DEFAULT_PATH] [NO_PACKAGE_ROOT_PATH] [NO_CMAKE_ENVIRONMENT_PATH] [NO_CMAKE_PATH] [NO_SYSTEM_ENVIRONMENT_PATH] [NO_CMAKE_SYSTEM_PATH] [<CMAKE_FIND_ROOT_PATH_BOTH|ONLY_CMAKE_FIND_ROOT_PATH|NO_CMAKE_FIND_ROOT_PATH>]
find_package: p [v] / [EXACT] [QUIET] [MODULE] [REQUIRED] [COMPONENTS(c+)] [OPTIONAL_COMPONENTS(c+)] [NO_POLICY_SCOPE]
find_package: p [v] / [EXACT] [QUIET] [REQUIRED] [COMPONENTS(c+)] <CONFIG|NO_MODULE> [NO_POLICY_SCOPE] [NAMES(n+)] [CONFIGS(c+)] [HINTS(p+)] [PATHS(p+)] [PATH_SUFFIXES(s+)] [NO_DEFAULT_PATH] [NO_PACKAGE_ROOT_PATH] [NO_CMAKE_PATH] [NO_CMAKE_ENVIRONMENT_PATH] [NO_SYSTEM_ENVIRONMENT_PATH] [NO_CMAKE_PACKAGE_REGISTRY] [NO_CMAKE_BUILDS_PATH] [NO_CMAKE_SYSTEM_PATH] [NO_CMAKE_SYSTEM_PACKAGE_REGISTRY] [<CMAKE_FIND_ROOT_PATH_BOTH|ONLY_CMAKE_FIND_ROOT_PATH|NO_CMAKE_FIND_ROOT_PATH>]
get_directory_property: v [DIRECTORY(d p)]
get_property: v <GLOBAL|DIRECTORY(d)|TARGET(t)|SOURCE(s)|TEST(t)|CACHE(e)|VARIABLE> PROPERTY(p) [<SET|DEFINED|BRIEF_DOCS|FULL_DOCS>]
include: f [OPTIONAL] [RESULT_VARIABLE(v)] [NO_POLICY_SCOPE]
include_directories: [<AFTER|BEFORE>] [SYSTEM] d+
mark_as_advanced: [<CLEAR|FORCE>] v+
message: <STATUS(m+)|WARNING(m+)|AUTHOR_WARNING(m+)|SEND_ERROR(m+)|FATAL_ERROR(m+)|DEPRECATION(m+)>
message: m+
project: n [VERSION(v)] [DESCRIPTION(d)] [HOMEPAGE_URL(u)] [LANGUAGES(l+)]
set_property: <GLOBAL|DIRECTORY(d)|TARGET(t+)|SOURCE(s+)|TEST(t+)|CACHE(e+)> [APPEND] [APPEND_STRING] PROPERTY(p v+)
string: FIND(s t v) [REVERSE]
string: REPLACE(m r v i+)
string: <APPEND(v i*)|PREPEND(v i*)|CONCAT(v i*)|JOIN(g v i*)>
string: <TOLOWER(s v)|TOUPPER(s v)|LENGTH(s v)|SUBSTRING(s b l v)|STRIP(s v)|GENEX_STRIP(s v)>
string: <MD5|SHA1|SHA224|SHA256|SHA384|SHA512|SHA3_224|SHA3_256|SHA3_384|SHA3_512>(v i)
string: ASCII(n+ v)
string: CONFIGURE(s v) [@ONLY] [ESCAPE_QUOTES]
string: MAKE_C_IDENTIFIER(s v)
string: TIMESTAMP(v [f]) [UTC]
define_property: <GLOBAL|DIRECTORY|TARGET|SOURCE|TEST|VARIABLE|CACHED_VARIABLE> PROPERTY(n) [INHERITED] BRIEF_DOCS(d+) FULL_DOCS(d+)
install_files: d <e f+|r|FILES f+>
install_programs: d <f+|FILES f+>
install_targets: d [RUNTIME_DIRECTORY(r)] t+
make_directory: d
remove: v x+
subdir_depends: s d+
subdirs: d+ [EXCLUDE_FROM_ALL(d+)] [PREORDER]
use_mangled_mesa: p o
utility_source: c e p f*
variable_requires: t r v+
write_file: f m+ [APPEND]
try_run: r c b s [CMAKE_FLAGS(f+)] [COMPILE_DEFINITIONS(d+)] [LINK_OPTIONS(o+)] [LINK_LIBRARIES(l+)] [COMPILE_OUTPUT_VARIABLE(v)] [RUN_OUTPUT_VARIABLE(v)] [OUTPUT_VARIABLE(v)] [ARGS(a+)]
try_compile: v b SOURCES(s+) [CMAKE_FLAGS(f+)] [COMPILE_DEFINITIONS(d+)] [LINK_OPTIONS(o+)] [LINK_LIBRARIES(l+)] [OUTPUT_VARIABLE(v)] [COPY_FILE(f)]
function: n a*
macro: n a*
'''
