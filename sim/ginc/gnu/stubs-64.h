/* empty */
