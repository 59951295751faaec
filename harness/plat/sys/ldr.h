/* what the system's header declares of loadquery() */
#ifndef VKP_LDR_H
#define VKP_LDR_H
#ifdef __cplusplus
extern "C" {
#endif
#define L_GETMESSAGES 1
#define L_GETINFO     2
#define L_GETLIBPATH  3
struct ld_info {
    unsigned int ldinfo_next;        /* offset of the next entry, zero in the last one */
    unsigned int ldinfo_flags;
    void *ldinfo_textorg;
    unsigned long ldinfo_textsize;
    void *ldinfo_dataorg;
    unsigned long ldinfo_datasize;
    char ldinfo_filename[2];         /* path, and after its end the name of the archive member */
};
int loadquery(int flags, void *buffer, unsigned int length);
#ifdef __cplusplus
}
#endif
#endif
