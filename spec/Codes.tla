-------------------------------- MODULE Codes --------------------------------
(* The library's public error codes, by their enumeration value. *)
ErrNone == 0            ErrEmptyAddress == 1      ErrEmptyNetmask == 2
ErrInvalidNetmask == 3  ErrMaskMixes == 4         ErrHostBits == 5
ErrOneSlash == 6        ErrTooLong == 7           ErrEmptyOctet == 8
ErrExpected4 == 9       ErrLeading0 == 10         ErrOctetChars == 11
ErrOctetSymbol == 12    ErrOctet255 == 13         ErrLeast3 == 14
ErrMost8Colons == 15    ErrPartChars == 16        ErrPartSymbol == 17
ErrOneDouble == 18      ErrLeadingColon == 19     ErrTrailingColon == 20
ErrAtMost7 == 21        ErrExactly8 == 22         ErrScopeLong == 23
ErrScopeInvalid == 24   ErrVersion == 25          ErrPrefixDiff == 26
ErrShorter == 27        ErrLonger == 28           ErrBothArgs == 29
ErrNotContained == 30   ErrSymbol == 31           ErrEncoding == 32
=============================================================================
