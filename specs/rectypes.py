from pydv.types import *

Rule = Rec("babylondigger.lemmas.transformation_rules:LemmaSuffixTransformation", word_suffix=Str, lemma_suffix=Str, exception=Bool)
PosR = Rec("babylondigger.datamodel:Pos", upos=Opt(Str), xpos=Opt(Str), feats=Opt(Dict(Str, Str)))
PosF = Rec("babylondigger.datamodel:Pos", upos=Opt(Str), xpos=Opt(Str), feats=Dict(Str, Str))       # constructed with features
ExtrasR = Rec("babylondigger.datamodel:TokenExtras", extras=Dict(Str, Any("extra")))
TokenR = Rec("babylondigger.datamodel:Token", start=Int, end=Int, pos=Opt(PosR), lemma=Opt(Str), deprel=Opt(Str), sub_index=Int,
             text_replacement=Opt(Str), head_document_index=Opt(Int), head_sentence_index=Opt(Int), extras=Opt(ExtrasR))
DocTokenR = Rec("babylondigger.datamodel:DocumentToken", document_text=Str, token=TokenR)
SentenceR = Rec("babylondigger.datamodel:Sentence", start_token=Int, end_token=Int)
