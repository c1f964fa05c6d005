rm -rf /tmp/simdev; bash /verif/build.sh /tmp/simdev
