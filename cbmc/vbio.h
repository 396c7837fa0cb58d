/* forced into every translation unit: the C library's stream and string
   functions by harness versions over an in-memory list of elements */
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include "Mainfile.h"
/* the symbolic run works on a table of VB_TABLE words; the native replay on the real one */
#if (defined VB_TABLE) && !(defined VB_NATIVE)
#undef RNG_TABLE
#define RNG_TABLE VB_TABLE
#endif
#undef stdout
#undef stderr
#define stdout ((FILE*)0)
#define stderr ((FILE*)0)
#define fopen vb_fopen
#define fclose vb_fclose
#define fread vb_fread
#define fwrite vb_fwrite
#define fprintf vb_fprintf
#define fgets vb_fgets
#define sscanf vb_sscanf
#define index vb_index
#define strcmp vb_strcmp
#define strlen vb_strlen
#define strcpy vb_strcpy
FILE* vb_fopen(const char*,const char*); int vb_fclose(FILE*); size_t vb_fread(void*,size_t,size_t,FILE*); size_t vb_fwrite(const void*,size_t,size_t,FILE*);
int vb_fprintf(FILE*,const char*,...); char* vb_fgets(char*,int,FILE*); int vb_sscanf(const char*,const char*,...); char* vb_index(const char*,int);
int vb_strcmp(const char*,const char*); size_t vb_strlen(const char*); char* vb_strcpy(char*,const char*);
