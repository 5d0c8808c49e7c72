#ifndef MANY_H
#define MANY_H
int fun_0(int a);
int fun_1(int a);
int fun_2(int a);
int fun_3(int a);
int fun_4(int a);
int fun_5(int a);
int fun_6(int a);
int fun_7(int a);
int fun_8(int a);
int fun_9(int a);
int fun_10(int a);
int fun_11(int a);
int fun_12(int a);
int fun_13(int a);
int fun_14(int a);
int fun_15(int a);
int fun_16(int a);
int fun_17(int a);
int fun_18(int a);
int fun_19(int a);
int fun_20(int a);
int fun_21(int a);
int fun_22(int a);
int fun_23(int a);
int fun_24(int a);
int fun_25(int a);
int fun_26(int a);
int fun_27(int a);
int fun_28(int a);
int fun_29(int a);
int fun_30(int a);
int fun_31(int a);
int fun_32(int a);
int fun_33(int a);
int fun_34(int a);
int fun_35(int a);
int fun_36(int a);
int fun_37(int a);
int fun_38(int a);
int fun_39(int a);
int fun_40(int a);
int fun_41(int a);
int fun_42(int a);
int fun_43(int a);
int fun_44(int a);
int fun_45(int a);
int fun_46(int a);
int fun_47(int a);
int fun_48(int a);
int fun_49(int a);
int fun_50(int a);
int fun_51(int a);
int fun_52(int a);
int fun_53(int a);
int fun_54(int a);
int fun_55(int a);
int fun_56(int a);
int fun_57(int a);
int fun_58(int a);
int fun_59(int a);
int fun_60(int a);
int fun_61(int a);
int fun_62(int a);
int fun_63(int a);
int fun_64(int a);
int fun_65(int a);
int fun_66(int a);
int fun_67(int a);
int fun_68(int a);
int fun_69(int a);
int fun_70(int a);
int fun_71(int a);
int fun_72(int a);
int fun_73(int a);
int fun_74(int a);
int fun_75(int a);
int fun_76(int a);
int fun_77(int a);
int fun_78(int a);
int fun_79(int a);
int fun_80(int a);
int fun_81(int a);
int fun_82(int a);
int fun_83(int a);
int fun_84(int a);
int fun_85(int a);
int fun_86(int a);
int fun_87(int a);
int fun_88(int a);
int fun_89(int a);
int fun_90(int a);
int fun_91(int a);
int fun_92(int a);
int fun_93(int a);
int fun_94(int a);
int fun_95(int a);
int fun_96(int a);
int fun_97(int a);
int fun_98(int a);
int fun_99(int a);
int fun_100(int a);
int fun_101(int a);
int fun_102(int a);
int fun_103(int a);
int fun_104(int a);
int fun_105(int a);
int fun_106(int a);
int fun_107(int a);
int fun_108(int a);
int fun_109(int a);
int fun_110(int a);
int fun_111(int a);
int fun_112(int a);
int fun_113(int a);
int fun_114(int a);
int fun_115(int a);
int fun_116(int a);
int fun_117(int a);
int fun_118(int a);
int fun_119(int a);
int fun_120(int a);
int fun_121(int a);
int fun_122(int a);
int fun_123(int a);
int fun_124(int a);
int fun_125(int a);
int fun_126(int a);
int fun_127(int a);
int fun_128(int a);
int fun_129(int a);
int fun_130(int a);
int fun_131(int a);
int fun_132(int a);
int fun_133(int a);
int fun_134(int a);
int fun_135(int a);
int fun_136(int a);
int fun_137(int a);
int fun_138(int a);
int fun_139(int a);
int fun_140(int a);
int fun_141(int a);
int fun_142(int a);
int fun_143(int a);
int fun_144(int a);
int fun_145(int a);
int fun_146(int a);
int fun_147(int a);
int fun_148(int a);
int fun_149(int a);
int fun_150(int a);
int fun_151(int a);
int fun_152(int a);
int fun_153(int a);
int fun_154(int a);
int fun_155(int a);
int fun_156(int a);
int fun_157(int a);
int fun_158(int a);
int fun_159(int a);
int fun_160(int a);
int fun_161(int a);
int fun_162(int a);
int fun_163(int a);
int fun_164(int a);
int fun_165(int a);
int fun_166(int a);
int fun_167(int a);
int fun_168(int a);
int fun_169(int a);
int fun_170(int a);
int fun_171(int a);
int fun_172(int a);
int fun_173(int a);
int fun_174(int a);
int fun_175(int a);
int fun_176(int a);
int fun_177(int a);
int fun_178(int a);
int fun_179(int a);
int fun_180(int a);
int fun_181(int a);
int fun_182(int a);
int fun_183(int a);
int fun_184(int a);
int fun_185(int a);
int fun_186(int a);
int fun_187(int a);
int fun_188(int a);
int fun_189(int a);
int fun_190(int a);
int fun_191(int a);
int fun_192(int a);
int fun_193(int a);
int fun_194(int a);
int fun_195(int a);
int fun_196(int a);
int fun_197(int a);
int fun_198(int a);
int fun_199(int a);
int fun_200(int a);
int fun_201(int a);
int fun_202(int a);
int fun_203(int a);
int fun_204(int a);
int fun_205(int a);
int fun_206(int a);
int fun_207(int a);
int fun_208(int a);
int fun_209(int a);
int fun_210(int a);
int fun_211(int a);
int fun_212(int a);
int fun_213(int a);
int fun_214(int a);
int fun_215(int a);
int fun_216(int a);
int fun_217(int a);
int fun_218(int a);
int fun_219(int a);
int fun_220(int a);
int fun_221(int a);
int fun_222(int a);
int fun_223(int a);
int fun_224(int a);
int fun_225(int a);
int fun_226(int a);
int fun_227(int a);
int fun_228(int a);
int fun_229(int a);
int fun_230(int a);
int fun_231(int a);
int fun_232(int a);
int fun_233(int a);
int fun_234(int a);
int fun_235(int a);
int fun_236(int a);
int fun_237(int a);
int fun_238(int a);
int fun_239(int a);
int fun_240(int a);
int fun_241(int a);
int fun_242(int a);
int fun_243(int a);
int fun_244(int a);
int fun_245(int a);
int fun_246(int a);
int fun_247(int a);
int fun_248(int a);
int fun_249(int a);
int fun_250(int a);
int fun_251(int a);
int fun_252(int a);
int fun_253(int a);
int fun_254(int a);
int fun_255(int a);
int fun_256(int a);
int fun_257(int a);
int fun_258(int a);
int fun_259(int a);
int fun_260(int a);
int fun_261(int a);
int fun_262(int a);
int fun_263(int a);
int fun_264(int a);
int fun_265(int a);
int fun_266(int a);
int fun_267(int a);
int fun_268(int a);
int fun_269(int a);
int fun_270(int a);
int fun_271(int a);
int fun_272(int a);
int fun_273(int a);
int fun_274(int a);
int fun_275(int a);
int fun_276(int a);
int fun_277(int a);
int fun_278(int a);
int fun_279(int a);
int fun_280(int a);
int fun_281(int a);
int fun_282(int a);
int fun_283(int a);
int fun_284(int a);
int fun_285(int a);
int fun_286(int a);
int fun_287(int a);
int fun_288(int a);
int fun_289(int a);
int fun_290(int a);
int fun_291(int a);
int fun_292(int a);
int fun_293(int a);
int fun_294(int a);
int fun_295(int a);
int fun_296(int a);
int fun_297(int a);
int fun_298(int a);
int fun_299(int a);
#endif
