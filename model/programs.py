"""Names of programs that exist on common systems. A program that is not modelled gives no answer if it is one of these;
any other name cannot be executed."""
NAMES = frozenset("""
add-shell addgroup addpart adduser agetty apk apt apt-cache apt-cdrom apt-config apt-get apt-key
apt-mark arch arpd awk b2sum base32 base64 basename basenc bash bashbug blkdiscard
blkid blkzone blockdev bridge busctl busybox cat chage chattr chcon chcpu chfn
chgpasswd chgrp chkconfig chmem chmod choom chown chpasswd chroot chrt chsh cksum
clear_console cmp comm cp cpgr cppw csplit ctrlaltdel ctstat curl cut cvtsudoers
dash date dcb dd delgroup delpart deluser devlink df diff diff3 dir
dircolors dirname dmesg dnf dnsdomainname domainname dpkg dpkg-deb dpkg-divert dpkg-maintscript-helper dpkg-query dpkg-realpath
dpkg-split dpkg-statoverride dpkg-trigger du echo egrep eix emerge env equery expand expiry
expr factor faillog fallocate false fgrep find findfs findmnt flock fmt fold
free fsck fsck.cramfs fsck.minix fsfreeze fstrim gawk genl getconf getent getfacl getopt
getty git git-receive-pack git-shell git-upload-archive git-upload-pack gpasswd grep groupadd groupdel groupmems groupmod
groups grpck grpconv grpunconv gunzip gzexe gzip hardlink head hg hostid hostname
hostnamectl i386 iconv iconvconfig id install installkernel ionice ip ipcmk ipcrm ipcs
ischroot isosize join journalctl kernel-install kill last lastb lastlog ld.so ldattach ldconfig
ldconfig.real ldd link linux32 linux64 ln lnstat locale localectl localedef logger login
loginctl logname ls lsattr lsblk lscpu lsipc lslocks lslogins lsmem lsns mawk
mcookie md5sum md5sum.textutils mesg mkdir mkfifo mkfs mkfs.bfs mkfs.cramfs mkfs.minix mknod mkswap
mktemp more mountpoint mv namei networkctl newgrp newusers nice nisdomainname nl nohup
nologin nproc nsenter nstat numfmt od openssl pacman partx passwd paste pathchk
perl perl5.38.2 pgrep pidwait pinky pivot_root pkill pldd pmap pr printenv printf
prlimit ps ptx pwck pwconv pwd pwdx pwunconv py3clean py3compile py3versions python
python3 qlist rbash rc-service rc-update rdma readlink readprofile realpath remove-shell rename.ul renice
resizepart rev rgrep rm rmdir rmt-tar routel rpm rrsync rsync rsync-ssl rtacct
rtcwake rtmon rtstat run-parts runcon runuser savelog scalar scp script scriptlive scriptreplay
sdiff sed seq service setarch setfacl setpriv setsid setterm sftp sg sh
sha1sum sha224sum sha256sum sha384sum sha512sum shadowconfig shred shuf skill slabtop sleep slogin
snice sort split ss ssh ssh-add ssh-agent ssh-argv0 ssh-copy-id ssh-keygen ssh-keyscan start-stop-daemon
stat stdbuf stty su sudo sudo_logsrvd sudo_sendlog sudoedit sudoreplay sulogin sum svn
swaplabel switch_root sync sysctl systemctl systemd systemd-ac-power systemd-analyze systemd-ask-password systemd-cat systemd-cgls systemd-cgtop
systemd-confext systemd-creds systemd-cryptenroll systemd-cryptsetup systemd-delta systemd-detect-virt systemd-escape systemd-firstboot systemd-id128 systemd-inhibit systemd-machine-id-setup systemd-mount
systemd-notify systemd-path systemd-repart systemd-run systemd-socket-activate systemd-stdio-bridge systemd-sysext systemd-sysusers systemd-tmpfiles systemd-tty-ask-password-agent systemd-umount tac
tail tar tarcat taskset tc tee tempfile test timedatectl timeout tipc tload
top touch tr true truncate tsort tty tzselect uclampset uname uncompress unexpand
uniq unlink unshare update-alternatives update-shells uptime useradd userdel usermod users utmpdump varlinkctl
vdir vdpa vigr vipw visudo vmstat w wall watch wc wdctl wget
whereis which.debianutils who whoami wipefs x86_64 xargs xbps-install yay yes ypdomainname yum
zcat zcmp zdiff zdump zegrep zfgrep zforce zgrep zic zless zmore znew
zramctl zypper
""".split())
