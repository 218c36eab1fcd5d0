/* Configuration of one simulated build variant: the repository's own configuration with the switches under test replaced. */
#ifndef SIM_CONFIG_H
#define SIM_CONFIG_H

#if defined(SIM_USE_ARDUINO)
#include "config/arduino/ush_config.h"
#else
#include "config/posix/ush_config.h"
#endif

#ifndef SIM_AUTOCOMP
#define SIM_AUTOCOMP 1
#endif
#ifndef SIM_STYLES
#define SIM_STYLES 1
#endif
#ifndef SIM_COMMANDS
#define SIM_COMMANDS 1
#endif
#ifndef SIM_CAT
#define SIM_CAT 1
#endif
#ifndef SIM_CD
#define SIM_CD 1
#endif
#ifndef SIM_ECHO
#define SIM_ECHO 1
#endif
#ifndef SIM_HELP
#define SIM_HELP 1
#endif
#ifndef SIM_LS
#define SIM_LS 1
#endif
#ifndef SIM_PWD
#define SIM_PWD 1
#endif
#ifndef SIM_XXD
#define SIM_XXD 1
#endif
#ifndef SIM_ALIGN
#define SIM_ALIGN 16
#endif
#ifndef SIM_COLS
#define SIM_COLS 8
#endif
#ifndef SIM_TRANSLATED
#define SIM_TRANSLATED 0
#endif

/* SIM_STOCK: leave every switch as the repository's configuration file has it */
#ifndef SIM_STOCK
#undef USH_CONFIG_FILENAME_ALIGN_SPACE
#define USH_CONFIG_FILENAME_ALIGN_SPACE SIM_ALIGN
#undef USH_CONFIG_CMD_XXD_COLUMNS
#define USH_CONFIG_CMD_XXD_COLUMNS SIM_COLS
#undef USH_CONFIG_ENABLE_COMMAND_CAT
#define USH_CONFIG_ENABLE_COMMAND_CAT SIM_CAT
#undef USH_CONFIG_ENABLE_COMMAND_CD
#define USH_CONFIG_ENABLE_COMMAND_CD SIM_CD
#undef USH_CONFIG_ENABLE_COMMAND_ECHO
#define USH_CONFIG_ENABLE_COMMAND_ECHO SIM_ECHO
#undef USH_CONFIG_ENABLE_COMMAND_HELP
#define USH_CONFIG_ENABLE_COMMAND_HELP SIM_HELP
#undef USH_CONFIG_ENABLE_COMMAND_LS
#define USH_CONFIG_ENABLE_COMMAND_LS SIM_LS
#undef USH_CONFIG_ENABLE_COMMAND_PWD
#define USH_CONFIG_ENABLE_COMMAND_PWD SIM_PWD
#undef USH_CONFIG_ENABLE_COMMAND_XXD
#define USH_CONFIG_ENABLE_COMMAND_XXD SIM_XXD
#undef USH_CONFIG_ENABLE_FEATURE_COMMANDS
#define USH_CONFIG_ENABLE_FEATURE_COMMANDS SIM_COMMANDS
#undef USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE
#define USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE SIM_AUTOCOMP
#undef USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES
#define USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES SIM_STYLES
#endif

#if SIM_TRANSLATED == 2     /* texts that look like formats and do not fit into small buffers */
#define SIM_SFX " 100%d%s%n \\x41 a text that is longer than most of the output buffers"
#else
#define SIM_SFX
#endif

#if SIM_TRANSLATED
#undef USH_CONFIG_TRANSLATION_OK
#undef USH_CONFIG_TRANSLATION_ERROR
#undef USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND
#undef USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST
#undef USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE
#undef USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED
#undef USH_CONFIG_TRANSLATION_SYNTAX_ERROR
#undef USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS
#undef USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE
#undef USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE
#undef USH_CONFIG_TRANSLATION_FILE_NOT_READABLE
#undef USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE
#undef USH_CONFIG_TRANSLATION_FILE_NOT_FOUND
#undef USH_CONFIG_TRANSLATION_READ_ONLY_FILE
#define USH_CONFIG_TRANSLATION_OK                               "w porzadku" SIM_SFX
#define USH_CONFIG_TRANSLATION_ERROR                            "blad" SIM_SFX
#define USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND              "nie ma katalogu" SIM_SFX
#define USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST         "sa podkatalogi" SIM_SFX
#define USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE          "brak rodzica" SIM_SFX
#define USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED        "juz zamontowany" SIM_SFX
#define USH_CONFIG_TRANSLATION_SYNTAX_ERROR                     "zla skladnia" SIM_SFX
#define USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS                  "zle argumenty" SIM_SFX
#define USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE              "nie mozna wykonac" SIM_SFX
#define USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE                "nie mozna pisac" SIM_SFX
#define USH_CONFIG_TRANSLATION_FILE_NOT_READABLE                "nie mozna czytac" SIM_SFX
#define USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE                "brak pomocy" SIM_SFX
#define USH_CONFIG_TRANSLATION_FILE_NOT_FOUND                   "nie ma pliku" SIM_SFX
#define USH_CONFIG_TRANSLATION_READ_ONLY_FILE                   "tylko do odczytu" SIM_SFX
#endif

#ifdef __cplusplus
extern "C"
#endif
void sim_assert_fail(const char *file, int line);

#ifndef SIM_ASSERTS
#define SIM_ASSERTS 1
#endif
#if SIM_ASSERTS
#undef USH_ASSERT
#define USH_ASSERT(cond) { if (!(cond)) sim_assert_fail(__FILE__, __LINE__); }
#endif

#endif
