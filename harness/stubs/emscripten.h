#pragma once
#define EM_ASM(...) ((void)0)
