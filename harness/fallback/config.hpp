#define HAVE_POSTGRESQL 0
#define HAVE_JAVA 1
#define HAVE_RE2 0
#define HAVE_SFST 0
#define HAVE_PCRE 1
#define HAVE_LOG4CPP 1
#define HAVE_PERL_BINDINGS 1
#define HAVE_CMPH 1
#define HAVE_GRAPHVIZ 1
#define GRAPHVIZ_CGRAPH 1
#define HAVE_POPPLER 1
#define HAVE_DJVULIBRE 1
#define USE_DOC_READER 1
#define HAVE_LIBMAGIC 1
#define HAVE_ASPELL 1
#define HAVE_LINK_GRAMMAR 0
#define HAVE_OPENFST 1
#define _WITH_BONSAI_PARSEGRAPH 0
#define IS_INSTALLABLE 0
#define STRING_FRAG_VALIDATION 0
#define INSTALL_DATA_DIR "/usr/local/share/psi-toolkit"
#define WEBSITE_ROOT "../server/website"
#define ROOT_DIR "../"
#define LEMMA_CATEGORY_SEPARATOR '+'

#define LEXICON_TEXT_FIELD_SEPARATORS "\t "
#define LEXICON_RECORD_SEPARATOR ";"
#define LEXICON_FIELD_SEPARATOR "\t"
#define LEXICON_SUBFIELD_SEPARATOR ","
#define LEXICON_KEY_VALUE_SEPARATOR "="
#define LEXICON_KEY_FIELD_SEPARATOR ","

#define PACKAGE_OS -1
#define PACKAGE_OS_UBUNTU 1
#define PACKAGE_OS_ARCHLINUX 2
