/* none */
