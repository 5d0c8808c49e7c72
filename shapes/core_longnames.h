#ifndef CORE_LONGNAMES_H
#define CORE_LONGNAMES_H
int a_function_whose_name_does_not_fit_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_1(int a, long b);
void a_function_whose_name_does_not_fit_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_2(void);
unsigned char a_function_whose_name_does_not_fit_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_3(unsigned char *p, short s);
#endif
